// C09: lock objects. GM is any mutex: per mode ghost state of the calling thread, every operation asserts that it is called in the mode
// its contract requires and succeeds, fails or throws arbitrarily. A lock object is taken through every operation from every state it can
// be in (no mutex / not owning / owning), twice in a row, then destroyed.
#include "vc_boost.h"
#include <boost/thread/lock_types.hpp>
#include <boost/thread/lock_guard.hpp>
#include <boost/thread/shared_lock_guard.hpp>
#include <boost/thread/reverse_lock.hpp>
#include <boost/thread/strict_lock.hpp>
#include <boost/thread/lock_factories.hpp>
#include <boost/thread/with_lock_guard.hpp>
#include <boost/thread/mutex.hpp>
#include <boost/thread/shared_mutex.hpp>
namespace bc = boost::chrono; typedef bc::steady_clock Mono;
enum { N, S, U, X };
struct Boom {}; static bool quiet; static int64_t arg; static int nops; static int one = 1;
#define MODE "C09.mutex_operation_called_in_its_mode"
struct GM {
  int mode; GM() : mode(N) {}
  void step(int f, int t) { nops += one; vc_assert(mode == f, MODE); if (!quiet && vc_choose("throws")) throw Boom(); mode = t; }
  bool tr(int f, int t) { nops += one; vc_assert(mode == f, MODE); if (!quiet && vc_choose("throws")) throw Boom(); if (!vc_choose("obtained")) return false; mode = t; return true; }
  void rel(int f) { nops += one; vc_assert(mode == f, MODE); mode = N; }
#define TIMED(pre, f, t) bool pre() { return tr(f, t); } \
  template <class C, class D> bool pre##_until(bc::time_point<C, D> const& p) { vc_assert(p.time_since_epoch().count() == arg, "C09.deadline_passed_on"); return tr(f, t); } \
  template <class R, class P> bool pre##_for(bc::duration<R, P> const& d) { vc_assert(d.count() == arg, "C09.deadline_passed_on"); return tr(f, t); }
  void lock() { step(N, X); } TIMED(try_lock, N, X) void unlock() { rel(X); }
  void lock_shared() { step(N, S); } TIMED(try_lock_shared, N, S) void unlock_shared() { rel(S); }
  void lock_upgrade() { step(N, U); } TIMED(try_lock_upgrade, N, U) void unlock_upgrade() { rel(U); }
  bool timed_lock(boost::posix_time::time_duration const& d) { vc_assert(d.total_microseconds() == arg, "C09.deadline_passed_on"); return tr(N, X); }
  bool timed_lock(boost::system_time const& t) { vc_assert(t == vc_ptime_us(arg), "C09.deadline_passed_on"); return tr(N, X); }
  bool timed_lock(boost::xtime const& t) { vc_assert((int64_t)t.sec == arg, "C09.deadline_passed_on"); return tr(N, X); }
  bool timed_lock_shared(boost::posix_time::time_duration const& d) { vc_assert(d.total_microseconds() == arg, "C09.deadline_passed_on"); return tr(N, S); }
  bool timed_lock_shared(boost::system_time const& t) { vc_assert(t == vc_ptime_us(arg), "C09.deadline_passed_on"); return tr(N, S); }
  void unlock_and_lock_shared() { step(X, S); } void unlock_and_lock_upgrade() { step(X, U); } void unlock_upgrade_and_lock_shared() { step(U, S); } void unlock_upgrade_and_lock() { step(U, X); }
  TIMED(try_unlock_upgrade_and_lock, U, X) TIMED(try_unlock_shared_and_lock, S, X) TIMED(try_unlock_shared_and_lock_upgrade, S, U)
};
typedef boost::unique_lock<GM> UL; typedef boost::shared_lock<GM> SL; typedef boost::upgrade_lock<GM> PL; typedef boost::detail::try_lock_wrapper<GM> TW;
template <class L> struct md; template <> struct md<UL> { enum { v = X }; }; template <> struct md<SL> { enum { v = S }; }; template <> struct md<PL> { enum { v = U }; }; template <> struct md<TW> { enum { v = X }; };
static int64_t mkarg() { return arg = vc_range64("deadline", 0, 1000000000000LL); }
// ghost view of a lock object
struct View { GM* m; bool own; };
template <class L> static void chk(L& l, View v, const char* id = "C09.reports_what_it_owns") { vc_assert(l.mutex() == v.m, id); vc_assert(l.owns_lock() == v.own, id); vc_assert(!!l == v.own, id); if (v.m) vc_assert(v.m->mode == (v.own ? (int)md<L>::v : (int)N), id); }
template <class L> static L* mk(GM& g, View& v) { if (vc_choose("no_mutex")) { v.m = 0; v.own = false; return new L; } v.m = &g; v.own = vc_choose("owning"); if (v.own) { g.mode = md<L>::v; return new L(g, boost::adopt_lock); } return new L(g, boost::defer_lock); }
template <class L> static void kill(L* l, View v) { int o = nops; delete l; vc_assert(nops == o + v.own, "C09.released_exactly_once"); if (v.m) vc_assert(v.m->mode == N, "C09.released_exactly_once"); }
enum { LOCK, UNLOCK, TRY, FOR, UNTIL, TABS, TREL, TXT, RELEASE, NOP };
template <class L> struct ops { static bool has(int) { return true; } };
template <class L> static bool timed(L& l, int op) { switch (op) { case FOR: return l.try_lock_for(bc::nanoseconds(mkarg())); default: return l.try_lock_until(Mono::time_point(bc::nanoseconds(mkarg()))); } }
static bool timed(TW&, int) { vc_end(); }
template <class L> static bool dt(L& l, int op) { if (op == TABS) return l.timed_lock(vc_ptime_us(mkarg())); return l.timed_lock(boost::posix_time::microseconds(mkarg())); }
static bool dt(PL&, int) { vc_end(); } static bool dt(TW&, int) { vc_end(); }
template <class L> static bool xt(L&) { vc_end(); } static bool xt(UL& l) { boost::xtime x; x.sec = mkarg(); x.nsec = 0; return l.timed_lock(x); }
// one member operation: what it must do given the view
template <class L> static void op1(L& l, View& v) {
  int op = 0; while (op < RELEASE && !vc_choose("next_op")) op++;
  int code = 0; bool boom = false, ret = true; int before = nops; GM* r = 0;
  try { switch (op) { case LOCK: l.lock(); break; case UNLOCK: l.unlock(); break; case TRY: ret = l.try_lock(); break; case FOR: case UNTIL: ret = timed(l, op); break; case TABS: case TREL: ret = dt(l, op); break; case TXT: ret = xt(l); break; case RELEASE: r = l.release(); break; } }
  catch (boost::lock_error& e) { code = e.native_error(); } catch (Boom&) { boom = true; vc_cover("mutex_threw"); }
  int want = op == RELEASE ? 0 : !v.m ? EPERM : op == UNLOCK ? (v.own ? 0 : EPERM) : v.own ? EDEADLK : 0;
  vc_assert(code == want, "C09.documented_lock_error");
  if (want) { vc_cover("rejected"); vc_assert(nops == before, "C09.rejected_operation_does_nothing"); }
  else if (op == RELEASE) { vc_assert(r == v.m && nops == before, "C09.release_returns_mutex_untouched"); if (v.own) v.m->mode = N; v.m = 0; v.own = false; } // the caller of release() now unlocks
  else { vc_assert(nops == before + 1, "C09.one_mutex_operation"); if (!boom) { v.own = op == UNLOCK ? false : ret; if (op != UNLOCK) vc_assert(v.m->mode == (ret ? (int)md<L>::v : (int)N), "C09.result_is_true"); vc_cover("performed"); } }
  chk(l, v);
}
template <class L> static void seq() { GM g; View v; L* l = mk<L>(g, v); chk(*l, v); op1(*l, v); op1(*l, v); kill(l, v); vc_cover("end"); }
ENTRY(ops_unique) { seq<UL>(); } ENTRY(ops_shared) { seq<SL>(); } ENTRY(ops_upgrade) { seq<PL>(); } ENTRY(ops_wrapper) { seq<TW>(); }
// construction with a mutex
#define CTOR(name, L, blocking, expr) ENTRY(ctor_##name) { GM g; L* l = 0; try { l = expr; } catch (Boom&) { vc_cover("threw"); vc_assert(g.mode == N && nops == 1, "C09.failed_construction_owns_nothing"); vc_cover("end"); vc_end(); } \
  View v = {&g, g.mode == md<L>::v}; vc_assert(nops == 1 && (v.own || g.mode == N), "C09.reports_what_it_owns"); if (blocking) vc_assert(v.own, "C09.constructed_locked"); if (!v.own) vc_cover("not_obtained"); chk(*l, v); kill(l, v); vc_cover("end"); }
#define CTORS(p, L) CTOR(p##_lock, L, 1, new L(g)) CTOR(p##_try, L, 0, new L(g, boost::try_to_lock)) CTOR(p##_for, L, 0, new L(g, bc::nanoseconds(mkarg()))) CTOR(p##_until, L, 0, new L(g, Mono::time_point(bc::nanoseconds(mkarg()))))
CTORS(unique, UL) CTORS(shared, SL) CTORS(upgrade, PL)
CTOR(unique_abs, UL, 0, new UL(g, vc_ptime_us(mkarg()))) CTOR(unique_rel, UL, 0, new UL(g, boost::posix_time::microseconds(mkarg()))) CTOR(shared_abs, SL, 0, new SL(g, vc_ptime_us(mkarg())))
CTOR(wrapper, TW, 0, new TW(g)) CTOR(wrapper_try, TW, 0, new TW(g, boost::try_to_lock))
CTOR(make_unique, UL, 1, new UL(boost::make_unique_lock(g))) CTOR(make_unique_try, UL, 0, new UL(boost::make_unique_lock(g, boost::try_to_lock)))
ENTRY(ctor_make_unique_adopt_defer) { GM g; bool own = vc_choose("adopt"); if (own) g.mode = X; UL* l = own ? new UL(boost::make_unique_lock(g, boost::adopt_lock)) : new UL(boost::make_unique_lock(g, boost::defer_lock)); View v = {&g, own}; vc_assert(nops == 0, "C09.adopt_defer_touch_nothing"); chk(*l, v); kill(l, v); vc_cover("end"); }
// swap, move construction, move assignment: every pair of states; nothing is locked or unlocked except what the target of an assignment owned
template <class L> static void pairs() {
  GM a, b; View va, vb; L* x = mk<L>(a, va); L* y = mk<L>(b, vb); int o = nops; View none = {0, false};
  int k = 0; while (k < 5 && !vc_choose("next")) k++;
  if (k == 0) { x->swap(*y); chk(*x, vb); chk(*y, va); vc_assert(nops == o, "C09.swap_touches_nothing"); kill(x, vb); kill(y, va); }
  else if (k == 1) { using boost::swap; swap(*x, *y); chk(*x, vb); chk(*y, va); vc_assert(nops == o, "C09.swap_touches_nothing"); kill(x, vb); kill(y, va); }
  else if (k == 2) { L* z = new L(boost::move(*x)); chk(*z, va, "C09.moves_ownership"); chk(*x, none, "C09.moves_ownership"); vc_assert(nops == o, "C09.move_touches_nothing"); kill(x, none); kill(z, va); kill(y, vb); }
  else if (k == 3) { *x = boost::move(*y); if (va.m) vc_assert(a.mode == N, "C09.assignment_releases_target"); vc_assert(nops == o + va.own, "C09.assignment_releases_target"); chk(*x, vb, "C09.moves_ownership"); chk(*y, none, "C09.moves_ownership"); kill(y, none); kill(x, vb); }
  else if (k == 4) { L& al = *x; *x = boost::move(al); chk(*x, va, "C09.self_move"); vc_assert(nops == o, "C09.self_move"); kill(x, va); kill(y, vb); }
  else { kill(y, vb); kill(x, va); }
  vc_cover("end");
}
ENTRY(pairs_unique) { pairs<UL>(); } ENTRY(pairs_shared) { pairs<SL>(); } ENTRY(pairs_upgrade) { pairs<PL>(); } ENTRY(pairs_wrapper) { pairs<TW>(); }
// conversions between lock classes, from every state of the source; kind 0: always, 1: try/timed (may fail: then the source keeps everything)
template <class D, class F, class Mk> static void conv(bool tr, Mk mkd) {
  GM a; View va; F* f = mk<F>(a, va); D* d = 0; View none = {0, false}; bool boom = false;
  try { d = mkd(*f); } catch (Boom&) { boom = true; vc_cover("threw"); }
  if (boom) { vc_assert(va.own, "C09.failed_conversion_changes_nothing"); chk(*f, va, "C09.failed_conversion_changes_nothing"); kill(f, va); vc_cover("end"); vc_end(); }
  if (va.own && tr && a.mode == md<F>::v) { vc_cover("not_obtained"); chk(*f, va, "C09.failed_conversion_changes_nothing"); chk(*d, none, "C09.failed_conversion_changes_nothing"); kill(d, none); kill(f, va); }
  else { vc_assert(!va.own || a.mode == md<D>::v, "C09.converts_ownership"); chk(*f, none, "C09.converts_ownership"); chk(*d, va, "C09.converts_ownership"); if (vc_choose("source_first")) kill(f, none), kill(d, va); else kill(d, va), kill(f, none); }
  vc_cover("end");
}
#define CONV(D, F, name, tr, ...) struct Mk_##name { D* operator()(F& f) { return __VA_ARGS__; } }; ENTRY(conv_##name) { conv<D, F>(tr, Mk_##name()); }
CONV(UL, PL, upgrade_to_unique, false, new UL(boost::move(f))) CONV(SL, UL, unique_to_shared, false, new SL(boost::move(f))) CONV(SL, PL, upgrade_to_shared, false, new SL(boost::move(f))) CONV(PL, UL, unique_to_upgrade, false, new PL(boost::move(f)))
#define TRYCONV(D, F, name) CONV(D, F, name##_try, true, new D(boost::move(f), boost::try_to_lock)) CONV(D, F, name##_for, true, new D(boost::move(f), bc::nanoseconds(mkarg()))) CONV(D, F, name##_until, true, new D(boost::move(f), Mono::time_point(bc::nanoseconds(mkarg()))))
TRYCONV(UL, PL, upgrade_to_unique) TRYCONV(UL, SL, shared_to_unique) TRYCONV(PL, SL, shared_to_upgrade)
// assignment from another lock class
template <class D, class F> static void assign() {
  GM a, b; View vd, vf, none = {0, false}; D* d = mk<D>(a, vd); F* f = mk<F>(b, vf); bool boom = false;
  try { *d = boost::move(*f); } catch (Boom&) { boom = true; vc_cover("threw"); }
  if (boom) { chk(*d, vd, "C09.failed_conversion_changes_nothing"); chk(*f, vf, "C09.failed_conversion_changes_nothing"); kill(d, vd); kill(f, vf); }
  else { if (vd.m) vc_assert(a.mode == N, "C09.assignment_releases_target"); chk(*d, vf, "C09.converts_ownership"); chk(*f, none, "C09.converts_ownership"); kill(f, none); kill(d, vf); }
  vc_cover("end");
}
ENTRY(assign_unique_upgrade) { assign<UL, PL>(); } ENTRY(assign_shared_unique) { assign<SL, UL>(); } ENTRY(assign_shared_upgrade) { assign<SL, PL>(); } ENTRY(assign_upgrade_unique) { assign<PL, UL>(); }
// upgrade_to_unique_lock: exclusive while it lives, back to upgrade ownership in the source when it goes; moves and swaps keep that
typedef boost::upgrade_to_unique_lock<GM> TU;
static void tuchk(TU& t, View v) { vc_assert(t.mutex() == v.m && t.owns_lock() == v.own && !!t == v.own, "C09.upgrade_to_unique_owns"); if (v.m) vc_assert(v.m->mode == (v.own ? X : N), "C09.upgrade_to_unique_owns"); }
ENTRY(upgrade_to_unique_scope) { GM a; View v, none = {0, false}; PL* p = mk<PL>(a, v); TU* t = 0; try { t = new TU(*p); } catch (Boom&) { vc_cover("threw"); chk(*p, v, "C09.failed_conversion_changes_nothing"); kill(p, v); vc_cover("end"); vc_end(); }
  tuchk(*t, v); chk(*p, none, "C09.upgrade_to_unique_owns"); quiet = true;
  if (vc_choose("move")) { TU* t2 = new TU(boost::move(*t)); tuchk(*t2, v); delete t; tuchk(*t2, v); t = t2; }
  delete t; chk(*p, v, "C09.upgrade_restored"); kill(p, v); vc_cover("end"); }
ENTRY(upgrade_to_unique_swap) { GM a, b; View va, vb; PL* p = mk<PL>(a, va); PL* q = mk<PL>(b, vb); quiet = true; TU* t = new TU(*p); TU* u = new TU(*q);
  if (vc_choose("assign")) { *t = boost::move(*u); chk(*p, va, "C09.upgrade_restored"); tuchk(*t, vb); delete u; tuchk(*t, vb); delete t; } else { t->swap(*u); tuchk(*t, vb); tuchk(*u, va); delete t; chk(*q, vb, "C09.upgrade_restored"); tuchk(*u, va); delete u; }
  chk(*p, va, "C09.upgrade_restored"); chk(*q, vb, "C09.upgrade_restored"); kill(p, va); kill(q, vb); vc_cover("end"); }
// scoped guards
template <class G> static void guard_scope(int m) { GM g; bool ad = vc_choose("adopt"); if (ad) g.mode = m; G* l = 0; try { l = ad ? new G(g, boost::adopt_lock) : new G(g); } catch (Boom&) { vc_cover("threw"); vc_assert(g.mode == N && nops == 1, "C09.failed_construction_owns_nothing"); vc_cover("end"); vc_end(); }
  vc_assert(g.mode == m && nops == !ad, "C09.guard_owns"); delete l; vc_assert(g.mode == N && nops == 1 + !ad, "C09.released_exactly_once"); vc_cover("end"); }
ENTRY(lock_guard) { guard_scope<boost::lock_guard<GM> >(X); } ENTRY(shared_lock_guard) { guard_scope<boost::shared_lock_guard<GM> >(S); }
ENTRY(make_lock_guard) { GM g; bool ad = vc_choose("adopt"); if (ad) g.mode = X; try { if (ad) { auto&& l = boost::make_lock_guard(g, boost::adopt_lock); (void)l; vc_assert(g.mode == X, "C09.guard_owns"); } else { auto&& l = boost::make_lock_guard(g); (void)l; vc_assert(g.mode == X && nops == 1, "C09.guard_owns"); } vc_assert(nops == 1 + !ad, "C09.released_exactly_once"); } catch (Boom&) { vc_cover("threw"); } vc_assert(g.mode == N, "C09.released_exactly_once"); vc_cover("end"); }
ENTRY(with_lock_guard) { struct F { GM* g; int* n; int operator()(int a) const { vc_assert(g->mode == X, "C09.guard_owns"); ++*n; if (vc_choose("function_throws")) throw 7; return a + 1; } }; GM g; int n = 0; F f = {&g, &n}; int arg1 = vc_range("arg", 0, 1000); int r = -1; bool t = false, b = false;
  try { r = boost::with_lock_guard(g, f, arg1); } catch (int e) { t = true; vc_cover("function_threw"); } catch (Boom&) { b = true; vc_cover("threw"); } vc_assert(g.mode == N, "C09.released_exactly_once"); vc_assert(n == (b ? 0 : 1), "C09.with_lock_guard_runs_once"); vc_assert(b || t || r == arg1 + 1, "C09.with_lock_guard_result"); vc_cover("end"); }
ENTRY(strict_lock) { GM g, other; typedef boost::strict_lock<boost::mutex> BS; try { boost::strict_lock<GM>* l = new boost::strict_lock<GM>(g); vc_assert(g.mode == X && nops == 1, "C09.guard_owns"); vc_assert(l->owns_lock(), "C09.guard_owns"); delete l; vc_assert(nops == 2, "C09.released_exactly_once"); { auto&& k = boost::make_strict_lock(g); (void)k; vc_assert(g.mode == X, "C09.guard_owns"); } vc_assert(nops == 4, "C09.released_exactly_once"); } catch (Boom&) { vc_cover("threw"); } vc_assert(g.mode == N, "C09.released_exactly_once"); vc_cover("end"); }
template <class L> static void nested() { GM a, b; View v, none = {0, false}; L* l = mk<L>(a, v); bool pre = v.own; int err = 0; bool boom = false; int ctor = vc_choose("make") ? 1 : 0;
  try { if (ctor) { auto&& s = boost::make_nested_strict_lock(*l); vc_assert(a.mode == md<L>::v, "C09.nested_strict_owns"); vc_assert(s.owns_lock() && s.mutex() == &a && s.owns_lock(&a) && !s.owns_lock(&b), "C09.nested_strict_owns"); chk2: (void)0; vc_assert(l->mutex() == 0 && !l->owns_lock(), "C09.nested_strict_owns"); vc_assert(nops == !pre, "C09.nested_strict_owns"); }
    else { boost::nested_strict_lock<L> s(*l); vc_assert(a.mode == md<L>::v, "C09.nested_strict_owns"); vc_assert(s.owns_lock() && s.mutex() == &a && s.owns_lock(&a) && !s.owns_lock(&b), "C09.nested_strict_owns"); vc_assert(l->mutex() == 0 && !l->owns_lock(), "C09.nested_strict_owns"); vc_assert(nops == !pre, "C09.nested_strict_owns"); } }
  catch (boost::lock_error&) { err = 1; vc_cover("rejected"); } catch (Boom&) { boom = true; vc_cover("threw"); }
  vc_assert(err == !v.m, "C09.documented_lock_error"); vc_assert(!boom || !pre, "C09.nested_strict_owns"); if (!err && !boom) v.own = true; chk(*l, v, "C09.nested_strict_restores"); kill(l, v); vc_cover("end"); }
ENTRY(nested_strict_unique) { nested<UL>(); } ENTRY(nested_strict_shared) { nested<SL>(); } ENTRY(nested_strict_upgrade) { nested<PL>(); }
// reverse_lock: releases at construction, the mutex cannot be reached through the lock meanwhile, owned again (in the mode of the lock) afterwards
template <class L> static void reverse() { GM a; View v, none = {0, false}; L* l = mk<L>(a, v); quiet = true; int o = nops; { boost::reverse_lock<L> r(*l); chk(*l, none, "C09.reverse_lock_released"); if (v.m) vc_assert(a.mode == N, "C09.reverse_lock_released"); vc_assert(nops == o + v.own, "C09.reverse_lock_released"); o = nops; }
  if (v.m) { v.own = true; vc_assert(nops == o + 1, "C09.reverse_lock_relocks"); } else vc_assert(nops == o, "C09.reverse_lock_relocks"); chk(*l, v, "C09.reverse_lock_relocks"); kill(l, v); vc_cover("end"); }
ENTRY(reverse_unique) { reverse<UL>(); } ENTRY(reverse_shared) { reverse<SL>(); } ENTRY(reverse_upgrade) { reverse<PL>(); }
// several locks at once
ENTRY(make_unique_locks) { one = 0; GM a, b, c; bool boom = false; try { std::tuple<UL, UL, UL>* t = new std::tuple<UL, UL, UL>(boost::make_unique_locks(a, b, c)); View va = {&a, true}, vb = {&b, true}, vc = {&c, true}; chk(std::get<0>(*t), va); chk(std::get<1>(*t), vb); chk(std::get<2>(*t), vc); delete t; } catch (Boom&) { boom = true; vc_cover("threw"); } vc_assert(a.mode == N && b.mode == N && c.mode == N, "C09.released_exactly_once"); vc_cover("end"); }
