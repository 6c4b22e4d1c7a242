// C15: promise, future, shared_future, wait_for_any/all. Every operation from every state of the shared state, with other threads acting whenever its mutex is free.
#include "vc_boost.h"
#include <boost/thread/thread.hpp>
#include <boost/thread/future.hpp>
#include <boost/thread/pthread/thread_data.hpp>
#include <vector>
namespace bc = boost::chrono; namespace bd = boost::detail; namespace boost { namespace detail { thread_data_base* get_or_make_current_thread_data(); } }
#ifndef BOOST_THREAD_PROVIDES_FUTURE
#error
#endif
static const int64_t NOW = 5000000000LL, FARNS = 1000000000000000LL;
struct XE { int k; }; // exceptions given to promises
static int vcopies, vlive; struct VT { int n; VT() : n(0) { vlive++; } explicit VT(int i) : n(i) { vlive++; } VT(const VT& o) : n(o.n) { vlive++; vcopies++; } VT(VT&& o) noexcept : n(o.n) { o.n = -1; vlive++; } VT& operator=(const VT& o) { n = o.n; vcopies++; return *this; } VT& operator=(VT&& o) noexcept { n = o.n; o.n = -1; return *this; } ~VT() { vlive--; } };
template <class T> static void rput(boost::optional<T>& r, T t) { r = boost::move(t); } template <class T> static void rput(boost::csbl::unique_ptr<T>& r, T t) { r.reset(new T(boost::move(t))); }
static int refs[4]; // targets of promise<int&>
template <class T> struct Tr { typedef typename bd::shared_state<T> S; static int val(S* s) { return s->result ? *s->result : -7; } static void put(S* s, int v) { rput(s->result, T(v)); } static void set(boost::promise<T>& p, int v, int f) { T x(v); if (f == 0) p.set_value((T const&)x); else if (f == 1) p.set_value(boost::move(x)); else if (f == 2) p.emplace(v); else if (f == 3) p.set_value_deferred((T const&)x); else if (f == 4) p.set_value_deferred(boost::move(x)); else if (f == 5) p.set_value_at_thread_exit((T const&)x); else p.set_value_at_thread_exit(boost::move(x)); } static int get(boost::future<T>& f) { return f.get(); } static int gets(boost::shared_future<T>& f) { return f.get(); } };
template <> struct Tr<VT> { typedef bd::shared_state<VT> S; static int val(S* s) { return s->result ? s->result->n : -7; } static void put(S* s, int v) { rput(s->result, VT(v)); } static void set(boost::promise<VT>& p, int v, int f) { VT x(v); try { if (f == 0) p.set_value((VT const&)x); else if (f == 1) p.set_value(boost::move(x)); else if (f == 2) p.emplace(v); else if (f == 3) p.set_value_deferred((VT const&)x); else if (f == 4) p.set_value_deferred(boost::move(x)); else if (f == 5) p.set_value_at_thread_exit((VT const&)x); else p.set_value_at_thread_exit(boost::move(x)); } catch (boost::promise_already_satisfied&) { vc_assert(x.n == v, "C15.rejected_value_not_moved"); throw; } } static int get(boost::future<VT>& f) { return f.get().n; } static int gets(boost::shared_future<VT>& f) { return f.get().n; } };
template <> struct Tr<int&> { typedef bd::shared_state<int&> S; static int val(S* s) { return s->result ? s->result - refs : -7; } static void put(S* s, int v) { s->result = &refs[v]; } static void set(boost::promise<int&>& p, int v, int f) { if (f < 3) p.set_value(refs[v]); else if (f < 5) p.set_value_deferred(refs[v]); else p.set_value_at_thread_exit(refs[v]); } static int get(boost::future<int&>& f) { return &f.get() - refs; } static int gets(boost::shared_future<int&>& f) { return &f.get() - refs; } };
template <> struct Tr<void> { typedef bd::shared_state<void> S; static int val(S*) { return -1000; } static void put(S*, int) {} static void set(boost::promise<void>& p, int, int f) { if (f < 3) p.set_value(); else if (f < 5) p.set_value_deferred(); else p.set_value_at_thread_exit(); } static int get(boost::future<void>& f) { f.get(); return -1000; } static int gets(boost::shared_future<void>& f) { f.get(); return -1000; } };
enum { FRESH, DVAL, DEXC, VAL, EXC }; // no result; result set but not visible yet; ready
static boost::exception_ptr mkx(int k) { return boost::copy_exception(XE{k}); }
// what a ready state holds: 1/2 values of other threads, 3 the operation's; broken is -1
static int xk(boost::exception_ptr const& e) { try { boost::rethrow_exception(e); } catch (XE& x) { return x.k; } catch (boost::broken_promise&) { return -1; } catch (...) { return -99; } }
template <class T> struct W { typedef typename Tr<T>::S S; static S* st; static int g, gv; static boost::exception_ptr gx; static int nacq, from; static bool may_act, ext_keeps; static boost::condition_variable_any* ext[2]; static int next_; static bool woke, ewoke[2]; static int target; static bool mine, moved, interr;
  static int state() { return st->done ? (st->exception ? EXC : VAL) : st->is_constructed ? (st->exception ? DEXC : DVAL) : FRESH; }
  static bool same(int v) { return v == gv || v == -1000; }
  static void put(int to) { if (g == FRESH) { gv = 2; if (to == VAL || to == DVAL) Tr<T>::put(st, 2); else { gx = mkx(2); st->exception = gx; } } if (to == VAL || to == EXC) { st->done = true; woke = ewoke[0] = ewoke[1] = true; } else st->is_constructed = true; g = to; }
  static void acq(void*) { if (may_act && vc_self == 1) { if (g == FRESH) { if (vc_choose("another_thread_sets_it")) { if (vc_choose("value")) put(vc_choose("not_visible") ? DVAL : VAL); else put(vc_choose("not_visible") ? DEXC : EXC); } } else if ((g == DVAL || g == DEXC) && vc_choose("becomes_visible")) put(g == DVAL ? VAL : EXC); }
    if (nacq == 0) from = g; if (nacq < 2) nacq++; if (g < VAL) { woke = ewoke[0] = ewoke[1] = false; } }
  static void check(int to) { vc_assert(state() == to, "C15.state_is_exact"); if (to == VAL || to == DVAL) vc_assert(moved || same(Tr<T>::val(st)), "C15.holds_what_was_given_first"); if (to == EXC || to == DEXC) vc_assert(gv < 0 ? xk(st->exception) == -1 : gv == 3 ? xk(st->exception) == 3 : st->exception == gx, "C15.holds_what_was_given_first"); }
  static void rel(void*) { int s = state(); if (s != g) { bool allowed = target >= 0 && !mine && (g == FRESH ? s == target : (target == VAL && g == DVAL && s == VAL) || (target == VAL && g == DEXC && s == EXC)); vc_assert(allowed, "C15.set_once"); if (g == FRESH) gv = target == EXC && from_broken ? -1 : 3; g = s; mine = true; } check(g); }
  static bool from_broken;
  static void notified(pthread_cond_t* c, bool all) { if (all && c == &st->waiters.cond) woke = true; for (int i = 0; i < next_; i++) if (all && c == &ext[i]->cond) ewoke[i] = true; }
  static void waits(pthread_cond_t*, pthread_mutex_t*) { vc_assert(g < VAL, "C15.ready_future_never_blocks"); may_act = true; }
  static void all_woken() { if (mine && g >= VAL) { vc_assert(woke, "C15.every_waiter_woken"); for (int i = 0; i < next_; i++) vc_assert(ewoke[i], "C15.every_waiter_woken"); } }
  static bd::thread_data_base* td;
  static void env(S* s, int start) { st = s; g = FRESH; target = -1; int k = start; if (k != FRESH) put(k); next_ = 0; while (next_ < 2 && vc_choose("registered_waiter")) { ext[next_] = new boost::condition_variable_any; s->notify_when_ready(*ext[next_]); next_++; } vc_monitor(s->mutex.native_handle(), acq, rel, 0); vc_env.notify_hook = notified; vc_env.wait_hook = waits; nacq = 0; may_act = true; vc_env.clk_fixed = 2; vc_env.clk[0] = vc_env.clk[1] = NOW; vc_env.clk_late = FARNS * 3; vc_self = 1; td = bd::get_or_make_current_thread_data(); }
  static void interruptible() { if (vc_choose("interruptible")) { td->interrupt_enabled = true; td->interrupt_requested = vc_choose("interrupt"); } }
};
#define D(t, n) template <class T> t W<T>::n
D(typename Tr<T>::S*, st); D(int, g); D(int, gv); D(boost::exception_ptr, gx); D(int, nacq); D(int, from); D(bool, may_act); D(bool, ext_keeps); D(boost::condition_variable_any*, ext[2]); D(int, next_); D(bool, woke); D(bool, ewoke[2]); D(int, target); D(bool, mine); D(bool, moved); D(bool, interr); D(bool, from_broken); D(bd::thread_data_base*, td);
static int pick(const char* n, int k) { int i = 0; while (i < k - 1 && !vc_choose(n)) i++; return i; }
// ---------------------------------------------------------------- setting a result
template <class T> static void setter(int op) { typedef W<T> w; boost::promise<T>* p = new boost::promise<T>; boost::future<T> f; bool hasf = vc_choose("future_retrieved"); if (hasf) f = p->get_future(); else p->lazy_init(); w::env(p->future_.get(), vc_choose("some_result") ? VAL : FRESH); boost::shared_ptr<typename Tr<T>::S> keep = p->future_; int x = 0; // 0 ok, 1 already satisfied
  bool dfr = op == 3 || op == 4 || (op >= 5 && op <= 6) || op == 9 || op == 10 || op >= 11, exc = op >= 7, ate = op == 5 || op == 6 || op >= 11; w::target = exc ? (dfr ? DEXC : EXC) : dfr ? DVAL : VAL;
  try { if (op < 7) Tr<T>::set(*p, 3, op); else if (op == 7) p->set_exception(mkx(3)); else if (op == 8) p->set_exception(XE{3}); else if (op == 9) p->set_exception_deferred(mkx(3)); else if (op == 10) p->set_exception_deferred(XE{3}); else if (op == 11) p->set_exception_at_thread_exit(mkx(3)); else p->set_exception_at_thread_exit(XE{3}); } catch (boost::promise_already_satisfied&) { x = 1; }
  w::may_act = false; vc_assert(w::mine == !x, x ? "C15.rejected_only_if_satisfied" : "C15.later_attempt_rejected"); if (!x) { vc_assert(w::gv == 3, "C15.set_once"); w::check(w::target); } w::all_woken(); vc_assert(!vc_held(keep->mutex.native_handle()), "C15.lock_released"); vc_assert(vc_env.waits == 0, "C15.setting_does_not_block");
  if (!x && ate) { vc_assert(w::td->async_states_.size() == 1 && w::td->async_states_[0] == keep, "C15.visible_when_the_thread_ends"); w::target = VAL; w::mine = false; w::td->async_states_[0]->notify_deferred(); vc_assert(w::g == (exc ? EXC : VAL) && w::gv == 3, "C15.visible_when_the_thread_ends"); w::all_woken(); } else vc_assert(w::td->async_states_.empty(), "C15.later_attempt_rejected");
  if (!x && dfr && !ate) { w::target = VAL; w::mine = false; p->notify_deferred(); vc_assert(w::g == (exc ? EXC : VAL) && w::gv == 3, "C15.deferred_result_made_visible"); w::all_woken(); vc_cover("notified"); }
  if (vc_choose("promise_destroyed")) { bool fr = w::g == FRESH; vc_assert(!fr, "C15.set_once"); if (w::g >= VAL) { w::target = -1; delete p; w::check(w::g); } } vc_cover(x ? "rejected" : "end"); if (x) vc_cover("end"); }
#define SETS(T, N) ENTRY(set_value_##N) { setter<T>(0); } ENTRY(set_value_rv_##N) { setter<T>(1); } ENTRY(emplace_##N) { setter<T>(2); } ENTRY(set_value_deferred_##N) { setter<T>(pick("rvalue", 2) + 3); } ENTRY(set_value_at_thread_exit_##N) { setter<T>(pick("rvalue", 2) + 5); } ENTRY(set_exception_##N) { setter<T>(pick("object", 2) + 7); } ENTRY(set_exception_deferred_##N) { setter<T>(pick("object", 2) + 9); } ENTRY(set_exception_at_thread_exit_##N) { setter<T>(pick("object", 2) + 11); }
SETS(int, int) SETS(VT, obj) SETS(int&, ref) SETS(void, void)
struct Thr { int n; explicit Thr(int i) : n(i) { if (i == 9) throw XE{9}; } Thr(const Thr& o) : n(o.n) { if (n == 8) throw XE{8}; } };
ENTRY(throwing_value) { vc_self = 1; boost::promise<Thr> p; boost::future<Thr> f = p.get_future(); Thr t(vc_choose("copy_throws") ? 8 : 1); bool threw = false, emp = t.n == 1; try { if (emp) p.emplace(9); else if (vc_choose("deferred")) p.set_value_deferred(t); else p.set_value(t); } catch (XE& x) { threw = x.k >= 8; } vc_assert(threw, "C15.exception_of_the_value_propagates"); vc_assert(!f.is_ready() && !p.future_->is_constructed, "C15.failed_attempt_changes_nothing"); t.n = 1; p.set_value(t); vc_assert(f.get().n == 1, "C15.failed_attempt_changes_nothing"); vc_cover("end"); }
// ---------------------------------------------------------------- destroying and moving promises
template <class T> static void destroy(int how) { typedef W<T> w; boost::promise<T>* p = new boost::promise<T>; boost::future<T> f = p->get_future(); w::env(f.future_.get(), pick("result", 5)); int start = w::g; w::from_broken = true; w::target = EXC; boost::promise<T>* q = 0; bool gone = true; int qhas = 0;
  if (how == 0) delete p; else if (how == 1) { boost::promise<T> m(boost::move(*p)); vc_assert(!p->future_, "C15.moved_from"); vc_assert(w::g == start || w::nacq, "C15.set_once"); gone = vc_choose("moved_destroyed"); if (!gone) { w::target = -1; new boost::promise<T>(boost::move(m)); } }
  else if (how == 2) { q = new boost::promise<T>; qhas = pick("source", 3); boost::future<T> f2; if (qhas) f2 = q->get_future(); if (qhas == 2) Tr<T>::set(*q, 1, 0); boost::shared_ptr<typename Tr<T>::S> qs = q->future_; *p = boost::move(*q); vc_assert(p->future_ == qs && !q->future_, "C15.moves_the_state"); if (qhas) { bool again = false; try { p->get_future(); } catch (boost::future_already_retrieved&) { again = true; } vc_assert(again, "C15.future_retrieved_once"); vc_assert(f2.is_ready() == (qhas == 2), "C15.moves_the_state"); } }
  else { boost::promise<T> o; o.swap(*p); vc_assert(o.future_.get() == w::st, "C15.moves_the_state"); w::target = EXC; }
  w::may_act = false; if (gone) { if (w::mine) { vc_assert(w::g == EXC && w::gv == -1, "C15.broken_promise"); vc_cover("broken"); } else vc_assert(w::g != FRESH, "C15.broken_promise"); } else vc_assert(!w::mine, "C15.moving_keeps_the_state"); w::check(w::g); w::all_woken(); vc_assert(!vc_held(w::st->mutex.native_handle()), "C15.lock_released"); vc_cover("end"); }
ENTRY(destroy_int) { destroy<int>(0); } ENTRY(destroy_ref) { destroy<int&>(0); } ENTRY(destroy_void) { destroy<void>(0); } ENTRY(move_int) { destroy<int>(1); } ENTRY(move_assign_int) { destroy<int>(2); } ENTRY(move_assign_ref) { destroy<int&>(2); } ENTRY(move_assign_void) { destroy<void>(2); } ENTRY(swap_int) { destroy<int>(3); } ENTRY(swap_void) { destroy<void>(3); }
// errors of promises that have no state (moved from), retrieval
static bool w1(int v) { return v == 1 || v == -1000; }
template <class T> static void misuse() { vc_self = 1; boost::promise<T> p; bool lz = !p.future_; boost::future<T> f; bool ret = vc_choose("retrieved"); if (ret) f = p.get_future(); boost::promise<T> m; m = boost::move(p); bool thrown = false, had = false; int op = pick("op", 9); bool lazy = false;
#ifdef BOOST_THREAD_PROVIDES_PROMISE_LAZY
  lazy = true; // a promise without a state gets one when it is used
#endif
  try { switch (op) { case 0: { boost::future<T> g = p.get_future(); had = g.valid(); break; } case 1: Tr<T>::set(p, 1, 0); break; case 2: Tr<T>::set(p, 1, 1); break; case 3: Tr<T>::set(p, 1, 2); break; case 4: p.set_exception(mkx(1)); break; case 5: p.set_exception(XE{1}); break; case 6: Tr<T>::set(p, 1, 3 + pick("form", 2)); break; case 7: Tr<T>::set(p, 1, 5 + pick("form", 2)); break; default: if (vc_choose("at_exit")) p.set_exception_at_thread_exit(mkx(1)); else p.set_exception_deferred(mkx(1)); } } catch (boost::promise_moved&) { thrown = true; }
  vc_assert(thrown == !lazy, "C15.moved_from_promise_rejected"); if (lazy && op == 0) vc_assert(had, "C15.future_retrieved"); if (ret) { vc_assert(f.valid() && !f.is_ready(), "C15.moving_keeps_the_state"); Tr<T>::set(m, 1, 0); vc_assert(f.is_ready() && f.has_value() && w1(Tr<T>::get(f)), "C15.moving_keeps_the_state"); bool again = false; try { m.get_future(); } catch (boost::future_already_retrieved&) { again = true; } vc_assert(again, "C15.future_retrieved_once"); } else if (!lz) { f = m.get_future(); vc_assert(f.valid() && !f.is_ready(), "C15.moving_keeps_the_state"); } vc_cover("end"); }
ENTRY(misuse_int) { misuse<int>(); } ENTRY(misuse_obj) { misuse<VT>(); } ENTRY(misuse_ref) { misuse<int&>(); } ENTRY(misuse_void) { misuse<void>(); }
template <class F> static bool uninit(F f) { try { f(); } catch (boost::future_uninitialized&) { return true; } return false; }
template <class T> static void empty() { vc_self = 1; boost::future<T> f; boost::shared_future<T> s; boost::promise<T> p; int how = pick("how", 4); if (how == 1) { f = p.get_future(); boost::future<T> g(boost::move(f)); vc_assert(g.valid(), "C15.moves_the_state"); } else if (how == 2) { f = p.get_future(); boost::shared_future<T> g = f.share(); vc_assert(g.valid(), "C15.moves_the_state"); boost::shared_future<T> h(boost::move(g)); s = boost::move(g); vc_assert(h.valid(), "C15.moves_the_state"); }
#ifdef BOOST_THREAD_PROVIDES_FUTURE_INVALID_AFTER_GET
  else if (how == 3) { f = p.get_future(); Tr<T>::set(p, 1, 0); Tr<T>::get(f); vc_assert(!f.valid(), "C15.empty_after_get"); bool th = uninit([&] { Tr<T>::get(f); }); vc_assert(th, "C15.misuse_throws"); vc_cover("end"); return; }
#endif
  vc_assert(!f.valid() && !s.valid(), "C15.empty_is_not_valid"); vc_assert(!f.is_ready() && !f.has_value() && !f.has_exception() && f.get_state() == boost::future_state::uninitialized && !f.get_exception_ptr(), "C15.empty_is_not_valid"); bool t[8]; int n = 0; auto chk = [&](bool b) { vc_assert(b, "C15.misuse_throws"); };
  chk(uninit([&] { Tr<T>::get(f); })); chk(uninit([&] { f.wait(); })); chk(uninit([&] { f.wait_for(bc::nanoseconds(1)); })); chk(uninit([&] { f.wait_until(bc::steady_clock::time_point(bc::nanoseconds(1))); }));
#ifdef BOOST_THREAD_USES_DATETIME
  chk(uninit([&] { f.timed_wait(boost::posix_time::milliseconds(1)); })); chk(uninit([&] { f.timed_wait_until(vc_ptime_us(1)); }));
#endif
  chk(uninit([&] { Tr<T>::gets(s); })); chk(uninit([&] { s.wait(); })); chk(uninit([&] { s.wait_for(bc::nanoseconds(1)); })); vc_cover("end"); }
ENTRY(empty_int) { empty<int>(); } ENTRY(empty_obj) { empty<VT>(); } ENTRY(empty_ref) { empty<int&>(); } ENTRY(empty_void) { empty<void>(); }
ENTRY(empty_get_or) { vc_self = 1; boost::future<int> f; boost::shared_future<int> s; int three = 3; vc_assert(uninit([&] { f.get_or(3); }) && uninit([&] { f.get_or((int const&)three); }) && uninit([&] { s.get_or(3); }), "C15.misuse_throws"); vc_cover("end"); }
// ---------------------------------------------------------------- waiting and getting, while other threads may satisfy the promise
enum { G_GET, G_GETOR, G_GETORC, G_WAIT, G_EPTR, G_FOR, G_UNTIL, G_UNTILS, G_TWAIT, G_TUNTIL, G_SGET, G_SGETOR, G_SWAIT, G_ISREADY, G_HASV, G_HASX, G_STATE, G_VALID, G_SHARE, G_SFOR };
template <class T> struct GetOr { static int go(boost::future<T>& f, bool c) { T d(55); return c ? val(f.get_or((T const&)d)) : val(f.get_or(boost::move(d))); } static int gos(boost::shared_future<T>& f) { T d(55); return val(f.get_or(boost::move(d))); } static int val(int v) { return v; } static int val(const VT& v) { return v.n; } };
template <> struct GetOr<void> { static int go(boost::future<void>&, bool) { vc_end(); } static int gos(boost::shared_future<void>&) { vc_end(); } }; template <> struct GetOr<int&> { static int go(boost::future<int&>& f, bool) { vc_end(); } static int gos(boost::shared_future<int&>&) { vc_end(); } };
template <class T> static void getter(int op) { typedef W<T> w; boost::promise<T>* p = new boost::promise<T>; boost::future<T> f = p->get_future(); boost::shared_future<T> s, s2; bool sh = op >= G_SGET && op <= G_SWAIT || op == G_SFOR || (op != G_GET && op != G_GETOR && op != G_GETORC && op != G_SHARE && vc_choose("shared")); w::env(f.future_.get(), pick("result", 5)); if (sh) { s = f.share(); s2 = s; }
  bool far = vc_choose("far"); w::interruptible(); int v = -5; int out = 0; /* 1 value, 2 exception, 3 ready, 4 timeout, 5 no */ bool blocking = false, timed = false; int64_t at = far ? FARNS : NOW - 1000; w::moved = false; int seen;
  auto rd = [&](bool b) { out = b ? 3 : 5; seen = w::g; };
  try { switch (op) { case G_GET: w::moved = true; v = Tr<T>::get(f); out = 1; break; case G_GETOR: w::moved = true; v = GetOr<T>::go(f, false); out = 1; break; case G_GETORC: w::moved = true; v = GetOr<T>::go(f, true); out = 1; break; case G_WAIT: if (sh) s.wait(); else f.wait(); out = 3; break; case G_EPTR: { boost::exception_ptr e = sh ? s.get_exception_ptr() : f.get_exception_ptr(); out = 3; vc_assert((w::g == EXC) == !!e, "C15.exception_pointer_of_the_result"); if (e) vc_assert(e == w::gx, "C15.exception_pointer_of_the_result"); break; }
    case G_FOR: { timed = true; boost::future_status r = sh ? s.wait_for(bc::nanoseconds(at - NOW)) : f.wait_for(bc::nanoseconds(at - NOW)); out = r == boost::future_status::ready ? 3 : 4; vc_assert(r != boost::future_status::deferred, "C15.timed_wait_exact"); break; } case G_SFOR: case G_UNTIL: { timed = true; bc::steady_clock::time_point t{bc::nanoseconds(at)}; boost::future_status r = sh ? s.wait_until(t) : f.wait_until(t); out = r == boost::future_status::ready ? 3 : 4; vc_assert(r != boost::future_status::deferred, "C15.timed_wait_exact"); break; } case G_UNTILS: { timed = true; bc::system_clock::time_point t{bc::nanoseconds(at)}; boost::future_status r = sh ? s.wait_until(t) : f.wait_until(t); out = r == boost::future_status::ready ? 3 : 4; break; }
#ifdef BOOST_THREAD_USES_DATETIME
    case G_TWAIT: timed = true; out = (sh ? s.timed_wait(boost::posix_time::microseconds((at - NOW) / 1000)) : f.timed_wait(boost::posix_time::microseconds((at - NOW) / 1000))) ? 3 : 4; break; case G_TUNTIL: timed = true; out = (sh ? s.timed_wait_until(vc_ptime_us(at / 1000)) : f.timed_wait_until(vc_ptime_us(at / 1000))) ? 3 : 4; break;
#endif
    case G_SGET: v = Tr<T>::gets(s); out = 1; break; case G_SGETOR: v = GetOr<T>::gos(s); out = 1; break; case G_SWAIT: s2.wait(); out = 3; break;
    case G_ISREADY: rd(sh ? s.is_ready() : f.is_ready()); vc_assert((out == 3) == (seen >= VAL), "C15.queries_exact"); vc_cover("end"); return; case G_HASV: rd(sh ? s.has_value() : f.has_value()); vc_assert((out == 3) == (seen == VAL), "C15.queries_exact"); vc_cover("end"); return; case G_HASX: rd(sh ? s.has_exception() : f.has_exception()); vc_assert((out == 3) == (seen == EXC), "C15.queries_exact"); vc_cover("end"); return; case G_STATE: { boost::future_state::state q = sh ? s.get_state() : f.get_state(); vc_assert(q == (w::g >= VAL ? boost::future_state::ready : boost::future_state::waiting), "C15.queries_exact"); vc_cover("end"); return; }
    case G_VALID: vc_assert(sh ? s.valid() && s2.valid() && !f.valid() : f.valid(), "C15.queries_exact"); vc_cover("end"); return; case G_SHARE: { boost::shared_future<T> a = f.share(), b(a), c; c = b; vc_assert(!f.valid() && a.valid() && b.valid() && c.valid() && c.future_.get() == w::st, "C15.share_moves_the_state"); vc_cover("end"); return; } } }
  catch (XE& x) { out = 2; vc_assert(op == G_GET || op == G_SGET, "C15.only_get_throws_the_result"); vc_assert(w::g == EXC && x.k == w::gv, "C15.get_delivers_exactly"); } catch (boost::thread_interrupted&) { w::may_act = false; w::check(w::g); vc_cover("interrupted"); vc_end(); }
  vc_assert(out != 0 && !w::mine, "C15.waiting_sets_nothing"); vc_assert(!vc_held(w::st->mutex.native_handle()), "C15.lock_released"); if (out == 3 || out == 1) vc_assert(w::g >= VAL, "C15.returns_only_when_ready"); if (out == 4) { vc_assert(w::g < VAL && timed, "C15.timeout_only_when_not_ready"); vc_cover("timeout"); }
  if (out == 1) { bool deflt = (op == G_GETOR || op == G_GETORC || op == G_SGETOR) && w::g == EXC; vc_assert(deflt ? v == 55 : w::g == VAL && w::same(v), "C15.get_delivers_exactly"); vc_cover("value"); } if (op == G_GET || op == G_SGET) vc_assert(out == 1 || out == 2, "C15.get_delivers_exactly");
#ifdef BOOST_THREAD_PROVIDES_FUTURE_INVALID_AFTER_GET
  if (op <= G_GETORC) vc_assert(!f.valid(), "C15.empty_after_get");
#else
  if (op <= G_GETORC) vc_assert(f.valid(), "C15.get_keeps_the_future");
#endif
  w::may_act = false; if (op > G_GETORC) w::check(w::g); if (op == G_SGET && out == 1) vc_assert(Tr<T>::gets(s2) == v, "C15.every_copy_gets_the_same"); vc_cover("end"); }
#define GETS(T, N) ENTRY(get_##N) { getter<T>(G_GET); } ENTRY(wait_##N) { getter<T>(G_WAIT); } ENTRY(shared_get_##N) { getter<T>(G_SGET); } ENTRY(wait_for_##N) { getter<T>(G_FOR); }
GETS(int, int) GETS(VT, obj) GETS(int&, ref) GETS(void, void)
ENTRY(get_or) { getter<int>(G_GETOR); } ENTRY(get_or_const) { getter<int>(G_GETORC); } ENTRY(get_or_obj) { getter<VT>(pick("const", 2) + G_GETOR); } ENTRY(shared_get_or) { getter<int>(G_SGETOR); } ENTRY(shared_wait) { getter<int>(G_SWAIT); } ENTRY(shared_wait_until) { getter<int>(G_SFOR); } ENTRY(exception_ptr) { getter<int>(G_EPTR); } ENTRY(wait_until_steady) { getter<int>(G_UNTIL); } ENTRY(wait_until_system) { getter<int>(G_UNTILS); }
#ifdef BOOST_THREAD_USES_DATETIME
 ENTRY(timed_wait) { getter<int>(G_TWAIT); } ENTRY(timed_wait_until) { getter<int>(G_TUNTIL); }
#endif
 ENTRY(queries) { getter<int>(G_ISREADY + pick("query", 6)); } ENTRY(queries_void) { getter<void>(G_ISREADY + pick("query", 6)); }
// ---------------------------------------------------------------- a wait callback may satisfy the promise itself
static int ncb; static int cbmode; static pthread_mutex_t* cbm; static void cb(boost::promise<int>& p) { ncb++; vc_assert(!vc_held(cbm), "C15.callback_runs_unlocked"); if (cbmode == 1) p.set_value(4); else if (cbmode == 2) p.set_exception(XE{4}); }
ENTRY(wait_callback) { vc_self = 1; boost::promise<int> p; boost::future<int> f = p.get_future(); p.set_wait_callback(cb); cbm = f.future_->mutex.native_handle(); cbmode = pick("mode", 2) + 1; bool before = vc_choose("ready_before"); if (before) p.set_value(4); int how = pick("how", 4); bool x = false; int v = 4; try { if (how == 0) v = f.get(); else if (how == 1) f.wait(); else if (how == 2) f.wait_for(bc::nanoseconds(-1)); else { boost::promise<int> q; boost::future<int> g = q.get_future(); vc_assert(boost::wait_for_any(g, f) == 1, "C15.any_reports_a_ready_one"); } } catch (XE& e) { x = e.k == 4; } vc_assert(ncb == (before ? 0 : 1), "C15.callback_called_if_not_ready"); vc_assert(v == 4 && x == (how == 0 && cbmode == 2 && !before), "C15.get_delivers_exactly"); vc_cover("end"); }
// ---------------------------------------------------------------- wait_for_any / wait_for_all over several futures; readiness of each is decided by other threads
static const int N = 3; static bd::shared_state<int>* ss[N]; static bool rdy[N], allrdy; static int nf; static bool anyat; static int nlocked;
static void aq(void* c) { long i = (long)c; if (!rdy[i] && vc_choose("satisfied")) { rput(ss[i]->result, int(5)); ss[i]->done = true; rdy[i] = true; } }
static void rl(void* c) { long i = (long)c; vc_assert(ss[i]->done == rdy[i], "C15.waiting_sets_nothing"); }
static void anywaits(pthread_cond_t*, pthread_mutex_t*) { }
static boost::promise<int>* ps[N]; static bool dupl;
static void many(int n) { nf = n; vc_self = 1; bd::get_or_make_current_thread_data(); for (long i = 0; i < n; i++) { ps[i] = new boost::promise<int>; ps[i]->lazy_init(); ss[i] = ps[i]->future_.get(); rdy[i] = vc_choose("ready"); if (rdy[i]) ps[i]->set_value(5); vc_monitor(ss[i]->mutex.native_handle(), aq, rl, (void*)i); } vc_env.wait_hook = anywaits; if (vc_choose("interruptible")) { bd::thread_data_base* t = bd::get_current_thread_data(); t->interrupt_enabled = true; t->interrupt_requested = vc_choose("interrupt"); } }
static void settle(int n) { for (int i = 0; i < n; i++) { vc_assert(ss[i]->external_waiters.empty(), "C15.waiter_unregistered"); vc_assert(!vc_held(ss[i]->mutex.native_handle()), "C15.lock_released"); } }
#define INTR(n) catch (boost::thread_interrupted&) { settle(n); vc_cover("interrupted"); vc_end(); }
ENTRY(any2) { many(2); boost::future<int> a = ps[0]->get_future(), b = ps[1]->get_future(); unsigned r = 9; try { r = boost::wait_for_any(a, b); } INTR(2) vc_assert(r < 2 && rdy[r], "C15.any_reports_a_ready_one"); settle(2); vc_cover("end"); }
ENTRY(any_mixed) { many(2); boost::future<int> e, a = ps[0]->get_future(); boost::shared_future<int> b = ps[1]->get_future().share(); unsigned r = 9; try { r = boost::wait_for_any(e, b, a); } INTR(2) vc_assert((r == 2 && rdy[0]) || (r == 1 && rdy[1]), "C15.any_reports_a_ready_one"); settle(2); vc_cover("end"); }
ENTRY(any_same) { many(2); boost::shared_future<int> a = ps[0]->get_future().share(), c(a), b = ps[1]->get_future().share(); unsigned r = 9; try { r = vc_choose("order") ? boost::wait_for_any(a, c, b) : (r = boost::wait_for_any(a, b, c), r == 1 ? 2 : r == 2 ? 1 : r); } INTR(2) vc_assert((r <= 1 && rdy[0]) || (r == 2 && rdy[1]), "C15.any_reports_a_ready_one"); settle(2); vc_cover("end"); }
ENTRY(b_any_range) { many(2); boost::shared_future<int> v[3]; int hole = pick("empty_one", 4), k = 0, map[3]; bool dup = vc_choose("same"); for (int i = 0; i < 3; i++) { map[i] = -1; if (i != hole && k < 2) { v[i] = boost::shared_future<int>(ps[k]->future_); map[i] = k; if (!(dup && k == 0 && i == 0)) k++; } } boost::shared_future<int>* r = 0; try { r = boost::wait_for_any(v, v + 3); } INTR(2) long i = r - v; vc_assert(i >= 0 && i < 3 && map[i] >= 0 && rdy[map[i]], "C15.any_reports_a_ready_one"); settle(2); boost::shared_future<int>* z = v; vc_assert(boost::wait_for_any(z, z) == z, "C15.any_of_none"); vc_cover("end"); }
ENTRY(all2) { many(2); boost::future<int> a = ps[0]->get_future(); boost::shared_future<int> b = ps[1]->get_future().share(); try { boost::wait_for_all(a, b); } INTR(2) vc_assert(rdy[0] && rdy[1], "C15.all_returns_when_all_are_ready"); settle(2); vc_cover("end"); }
ENTRY(b_all_range) { many(3); std::vector<boost::future<int> > v; for (int i = 0; i < 3; i++) v.push_back(ps[i]->get_future()); try { boost::wait_for_all(v.begin(), v.end()); } INTR(3) vc_assert(rdy[0] && rdy[1] && rdy[2], "C15.all_returns_when_all_are_ready"); settle(3); vc_cover("end"); }
// ---------------------------------------------------------------- ready-made futures
ENTRY(ready_made) { vc_self = 1; int n = vc_i32("v"); { boost::future<int> f = boost::make_ready_future(n); vc_assert(f.is_ready() && f.has_value() && f.get() == n, "C15.ready_made"); } { boost::future<void> f = boost::make_ready_future(); vc_assert(f.is_ready() && f.has_value(), "C15.ready_made"); f.get(); } { boost::future<int&> f = boost::make_ready_future<int&>(refs[2]); vc_assert(f.is_ready() && &f.get() == &refs[2], "C15.ready_made"); }
  { boost::future<int> f = boost::make_exceptional_future<int>(XE{n}); int k = 0; vc_assert(f.has_exception(), "C15.ready_made"); try { f.get(); } catch (XE& x) { k = 1; vc_assert(x.k == n, "C15.ready_made"); } vc_assert(k, "C15.ready_made"); } { boost::future<void> f = boost::make_exceptional_future<void>(mkx(n)); vc_assert(f.has_exception(), "C15.ready_made"); } { boost::shared_future<void> f = boost::make_shared_future(); vc_assert(f.is_ready() && f.has_value(), "C15.ready_made"); } { boost::shared_future<int> f = boost::make_shared_future(n); vc_assert(f.is_ready() && f.get() == n, "C15.ready_made"); } { boost::future<int> f = boost::make_future(n); vc_assert(f.get() == n, "C15.ready_made"); } vc_cover("end"); }
// ---------------------------------------------------------------- every interleaving of setters, waiters and destruction
static boost::promise<int>* q[2]; static boost::shared_future<int>* sf[2]; static boost::future<int>* uf; static int nset, setv, gots; static int sform;
static void s_set(void* a) { int k = (long)a; try { if (sform == 1) q[0]->set_exception(XE{k}); else q[0]->set_value(k); nset++; setv = k; } catch (boost::promise_already_satisfied&) { vc_assert(nset == 1 || vc_sched.n > 0, "C15.set_once"); nset += 10; } }
static void s_set0(void* a) { q[(long)a]->set_value(5); } static void s_destroy(void*) { delete q[0]; q[0] = 0; }
static void outcome(boost::shared_future<int>& f) { try { int v = f.get(); vc_assert(v == 1 || v == 2 || v == 5, "C15.get_delivers_exactly"); gots = gots * 10 + v; } catch (XE& x) { gots = gots * 10 + x.k; } catch (boost::broken_promise&) { gots = gots * 10 + 9; } }
static void s_get(void* a) { boost::shared_future<int> f(*sf[(long)a]); outcome(f); } static void s_wait(void*) { sf[0]->wait(); vc_assert(sf[0]->is_ready(), "C15.returns_only_when_ready"); } static void s_timed(void*) { boost::future_status r = sf[0]->wait_until(bc::steady_clock::time_point(bc::nanoseconds(FARNS))); if (r == boost::future_status::ready) vc_assert(sf[0]->is_ready(), "C15.returns_only_when_ready"); }
static void s_any(void* a) { bool rev = (long)a; boost::shared_future<int> x(*sf[0]), y(*sf[1]); unsigned r = rev ? boost::wait_for_any(y, x) : boost::wait_for_any(x, y); vc_assert((rev ? r == 0 ? y : x : r == 0 ? x : y).is_ready(), "C15.any_reports_a_ready_one"); }
static void s_all(void* a) { boost::shared_future<int> x(*sf[0]), y(*sf[1]); if (a) boost::wait_for_all(y, x); else boost::wait_for_all(x, y); vc_assert(x.is_ready() && y.is_ready(), "C15.all_returns_when_all_are_ready"); }
static void s0(int n) { for (int i = 0; i < n; i++) { q[i] = new boost::promise<int>; sf[i] = new boost::shared_future<int>(q[i]->get_future().share()); } vc_env.clk_fixed = 1; vc_env.clk[0] = vc_env.clk[1] = NOW; vc_sched_start(); vc_sched.preempt = -1; vc_sched.lazy = 1; }
static void done() { vc_run(); for (int i = 1; i <= vc_sched.n; i++) vc_assert(vc_done(i), "C15.every_waiter_woken"); vc_cover("end"); }
ENTRY(sched_2set_get) { s0(1); sform = vc_choose("exception"); vc_sched.spurious = 1; vc_thread(s_set, (void*)1); vc_thread(s_set, (void*)2); vc_thread(s_get, 0); done(); vc_assert(nset == 11 && gots == setv, "C15.set_once"); }
ENTRY(sched_set_2get) { s0(1); vc_thread(s_set, (void*)1); vc_thread(s_get, 0); vc_thread(s_get, 0); done(); vc_assert(gots == 11, "C15.every_copy_gets_the_same"); }
ENTRY(sched_destroy_get_wait) { s0(1); vc_thread(s_destroy, 0); vc_thread(s_get, 0); vc_thread(s_wait, 0); done(); vc_assert(gots == 9, "C15.broken_promise"); }
ENTRY(sched_timed_get) { s0(1); vc_sched.timeouts = 1; vc_thread(s_set, (void*)1); vc_thread(s_timed, 0); vc_thread(s_get, 0); done(); vc_assert(gots == 1, "C15.get_delivers_exactly"); }
ENTRY(sched_any_one) { s0(2); vc_thread(s_any, 0); vc_thread(s_set0, (void*)(vc_choose("which") ? 1L : 0L)); done(); }
ENTRY(sched_any_reverse) { s0(2); vc_thread(s_any, 0); vc_thread(s_any, (void*)1); vc_thread(s_set0, (void*)1); done(); }
ENTRY(sched_any_get) { s0(2); vc_thread(s_any, 0); vc_thread(s_get, (void*)1); vc_thread(s_set0, (void*)1); done(); }
ENTRY(sched_all) { s0(2); vc_thread(s_all, (void*)(vc_choose("order") ? 1L : 0L)); vc_thread(s_set0, 0); vc_thread(s_set0, (void*)1); done(); }
