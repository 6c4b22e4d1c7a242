// C10: boost::lock / boost::try_lock over any lockables: each attempt may succeed, fail or throw. lock() retry loops are closed by loop convergence.
#include "vc_boost.h"
#include <boost/thread/lock_algorithms.hpp>
#include <boost/thread/lock_types.hpp>
#include <boost/thread/lock_factories.hpp>
struct Boom {}; static int held, firstfail; static bool trying;
struct GL { bool own; int ix;
  GL() : own(false), ix(-1) {}
  void lock() { vc_assert(!own, "C10.locked_exactly_once"); vc_assert(!trying, "C10.try_lock_never_blocks"); vc_assert(held == 0, "C10.never_holds_while_waiting"); if (vc_choose("throws")) throw Boom(); own = true; held++; }
  bool try_lock() { vc_assert(!own, "C10.locked_exactly_once"); if (vc_choose("throws")) throw Boom(); if (!vc_choose("obtained")) { if (trying) { vc_assert(firstfail < 0, "C10.stops_at_first_failure"); firstfail = ix; } return false; } own = true; held++; return true; }
  void unlock() { vc_assert(own, "C10.released_once"); own = false; held--; }
};
template <> struct boost::is_mutex_type<GL> { static const bool value = true; };
static GL g[8];
static void start(int n) { for (int i = 0; i < n; i++) g[i].ix = i; firstfail = -1; }
static bool all(int n) { bool r = true; for (int i = 0; i < n; i++) r = r && g[i].own; return r && held == n; }
template <class F> static void dolock(int n, F f) { start(n); try { f(); vc_assert(all(n), "C10.all_locked"); vc_cover("locked"); } catch (Boom&) { vc_assert(held == 0, "C10.none_left_locked"); vc_cover("threw"); } vc_cover("end"); }
template <class F> static void dotry(int n, F f) { start(n); trying = true; try { int r = f(); vc_assert(r == firstfail, "C10.identifies_first_failure"); if (firstfail < 0) { vc_assert(all(n), "C10.all_locked"); vc_cover("locked"); } else { vc_assert(held == 0, "C10.none_left_locked"); vc_cover("failed"); } } catch (Boom&) { vc_assert(held == 0, "C10.none_left_locked"); vc_cover("threw"); } vc_cover("end"); }
#define L(n, ...) ENTRY(lock##n) { dolock(n, [] { boost::lock(__VA_ARGS__); }); } ENTRY(try_lock##n) { dotry(n, [] { return boost::try_lock(__VA_ARGS__); }); }
L(2, g[0], g[1]) L(3, g[0], g[1], g[2]) L(4, g[0], g[1], g[2], g[3]) L(5, g[0], g[1], g[2], g[3], g[4])
// lock objects as lockables: their own reports follow
typedef boost::unique_lock<GL> UL;
template <class F> static void lockobjs(int n, UL* l, F f) { bool ok = false; try { f(); ok = true; vc_cover("locked"); } catch (Boom&) { vc_cover("threw"); } for (int i = 0; i < n; i++) vc_assert(l[i].owns_lock() == ok && l[i].mutex() == &g[i], "C10.lock_objects_follow"); vc_assert(held == (ok ? n : 0), "C10.none_left_locked"); }
ENTRY(lock_objects2) { start(2); { UL l[2] = {UL(g[0], boost::defer_lock), UL(g[1], boost::defer_lock)}; lockobjs(2, l, [&] { boost::lock(l[0], l[1]); }); } vc_assert(held == 0, "C10.released_once"); vc_cover("end"); }
ENTRY(lock_objects3) { start(3); { UL l[3] = {UL(g[0], boost::defer_lock), UL(g[1], boost::defer_lock), UL(g[2], boost::defer_lock)}; lockobjs(3, l, [&] { boost::lock(l[0], l[1], l[2]); }); } vc_assert(held == 0, "C10.released_once"); vc_cover("end"); }
ENTRY(try_lock_objects2) { start(2); { UL l[2] = {UL(g[0], boost::defer_lock), UL(g[1], boost::defer_lock)}; int r = -2; try { r = boost::try_lock(l[0], l[1]); } catch (Boom&) {} for (int i = 0; i < 2; i++) vc_assert(l[i].owns_lock() == (r == -1), "C10.lock_objects_follow"); vc_assert(held == (r == -1 ? 2 : 0), "C10.none_left_locked"); } vc_assert(held == 0, "C10.released_once"); vc_cover("end"); }
// an already owning lock object among them: rejected, nothing taken by the call stays taken
ENTRY(lock_objects_one_owned) { start(2); { UL l[2] = {UL(g[0], boost::defer_lock), UL(g[1], boost::defer_lock)}; int k = vc_choose("second"); g[k].own = true; UL o(g[k], boost::adopt_lock); l[k].swap(o); held = 0; bool t = false; try { boost::lock(l[0], l[1]); } catch (boost::lock_error&) { t = true; vc_cover("rejected"); } catch (Boom&) { t = true; } vc_assert(t, "C10.rejects_owned"); vc_assert(held == 0 && !g[1 - k].own && g[k].own, "C10.none_left_locked"); held = 1; } vc_cover("end"); }
// make_unique_locks, every arity
ENTRY(make_unique_locks2) { start(2); try { auto t = boost::make_unique_locks(g[0], g[1]); vc_assert(all(2), "C10.all_locked"); vc_assert(std::get<0>(t).owns_lock() && std::get<1>(t).owns_lock() && std::get<0>(t).mutex() == &g[0] && std::get<1>(t).mutex() == &g[1], "C10.lock_objects_follow"); } catch (Boom&) {} vc_assert(held == 0, "C10.released_once"); vc_cover("end"); }
ENTRY(make_unique_locks3) { start(3); try { auto t = boost::make_unique_locks(g[0], g[1], g[2]); vc_assert(all(3), "C10.all_locked"); vc_assert(std::get<2>(t).mutex() == &g[2], "C10.lock_objects_follow"); } catch (Boom&) {} vc_assert(held == 0, "C10.released_once"); vc_cover("end"); }
// ranges
#define RANGE(n) ENTRY(b_range_lock##n) { dolock(n, [] { boost::lock(&g[0], &g[n]); }); } ENTRY(b_range_try_lock##n) { dotry(n, [] { GL* r = boost::try_lock(&g[0], &g[n]); vc_assert(r >= &g[0] && r <= &g[n], "C10.identifies_first_failure"); return r == &g[n] ? -1 : (int)(r - &g[0]); }); }
RANGE(0) RANGE(1) RANGE(2) RANGE(3) RANGE(4) RANGE(5)
// Ranges of any length: a symbolic length n and an arbitrary element k. Each function is verified against the contracts of the functions it
// calls (recursive calls included); the only loop over elements (the guard's destructor) is cut by its invariant, injected through the iterator.
struct It; struct RL { int ix; void lock(); bool try_lock(); void unlock(); };
static int N_, K_, ff; static bool ownk, outer, hold_any; // ownk: element K_ is owned; hold_any: some element is certainly owned
static int cut, lo, hi; static bool pend;
struct It { int i; typedef RL value_type; typedef std::ptrdiff_t difference_type; typedef RL* pointer; typedef RL& reference; typedef std::forward_iterator_tag iterator_category;
  RL& operator*() const { vc_assert(0 <= i && i < N_, "C10.range_element_exists"); RL* r = new RL; r->ix = i; return *r; } RL* operator->() const { return &**this; }
  It& operator++() { vc_assert(i < N_, "C10.range_element_exists"); i++; return *this; } It operator++(int) { It o = *this; ++*this; return o; } };
template <> struct boost::is_mutex_type<RL> { static const bool value = true; };
// loop over [lo, hi) by position a: invariant "exactly the elements from a on are still owned"; cut after establishing that one iteration keeps it
static bool old_;
static void head(It const& a) { if (!cut) return; bool in = vc_fork(lo <= K_ && K_ < hi); vc_assert(lo <= a.i && a.i <= hi, "C10.guard_loop_invariant"); if (in) vc_assert(ownk == (K_ >= a.i), "C10.guard_loop_invariant"); else vc_assert(ownk == old_, "C10.guard_loop_invariant");
  if (cut == 2) { vc_cover("iteration"); vc_end(); } cut = 2; int j = vc_i32("position"); vc_assume(lo <= j && j <= hi); const_cast<It&>(a).i = j; if (in) ownk = vc_fork(K_ >= j); }
static bool operator==(It const& a, It const& b) { head(a); return vc_fork(a.i == b.i); }
static bool operator!=(It const& a, It const& b) { head(a); return vc_fork(a.i != b.i); }
void RL::lock() { if (ix == K_) vc_assert(!ownk, "C10.locked_exactly_once"); vc_assert(!ownk, "C10.never_holds_while_waiting"); if (vc_choose("throws")) throw Boom(); if (vc_fork(ix == K_)) ownk = true; }
bool RL::try_lock() { if (ix == K_) vc_assert(!ownk, "C10.locked_exactly_once"); if (vc_choose("throws")) throw Boom(); if (!vc_choose("obtained")) { ff = ix; return false; } if (vc_fork(ix == K_)) ownk = true; return true; }
void RL::unlock() { if (vc_fork(ix == K_)) { vc_assert(ownk, "C10.released_once"); ownk = false; } }
static It c_try(It& b, It& e) { vc_assert(0 <= b.i && b.i <= e.i && e.i <= N_, "C10.range_arguments"); vc_assert(b.i > 0 || e.i < N_, "C10.range_recursion_is_on_less"); bool in = vc_fork(b.i <= K_ && K_ < e.i); if (in) vc_assert(!ownk, "C10.locked_exactly_once");
  if (vc_fork(b.i == e.i)) return e; if (vc_choose("throws")) throw Boom(); if (vc_choose("all")) { if (in) ownk = true; return e; } It f; f.i = vc_i32("failed_at"); vc_assume(b.i <= f.i && f.i < e.i); ff = f.i; return f; }
static void c_lock(It& b, It& e) { vc_assert(0 <= b.i && b.i <= e.i && e.i <= N_, "C10.range_arguments"); vc_assert(b.i > 0 || e.i < N_, "C10.range_recursion_is_on_less"); vc_assert(!ownk, "C10.never_holds_while_waiting"); if (vc_choose("throws")) throw Boom(); if (vc_fork(b.i <= K_ && K_ < e.i)) ownk = true; }
// ~range_lock_guard: unlocks exactly [begin, end)
typedef boost::detail::range_lock_guard<It> RG;
static void c_guard_dtor(RG* g) { bool in = vc_fork(g->begin.i <= K_ && K_ < g->end.i); if (in) { vc_assert(ownk, "C10.released_once"); ownk = false; } }
static void rstart2() { N_ = vc_range("n", 1, 1 << 20); K_ = vc_range("k", 0, 1 << 20); vc_assume(K_ < N_); lo = vc_range("lo", 1, 1 << 20); hi = vc_range("hi", 1, 1 << 20); vc_assume(lo <= hi && hi <= N_); ownk = false; vc_contract("boost::lock<It, It>(", (void*)c_lock); }
static void rstart() { N_ = vc_range("n", 0, 1 << 20); K_ = vc_range("k", 0, 1 << 20); vc_assume(K_ < N_ || (N_ == 0 && K_ == 0)); ownk = false; ff = -1; vc_contract("boost::try_lock<It, It>(", (void*)c_try); vc_contract("boost::lock<It, It>(", (void*)c_lock); vc_contract("range_lock_guard<It>::~range_lock_guard()", (void*)c_guard_dtor); }
ENTRY(range_guard) { rstart2(); It b = {lo}, e = {hi}; RG* g; try { g = new RG(b, e); } catch (Boom&) { vc_assert(!ownk, "C10.none_left_locked"); vc_cover("threw"); vc_end(); }
  bool in = lo <= K_ && K_ < hi; vc_assert(ownk == in, "C10.all_locked"); if (vc_choose("release")) { g->release(); delete g; vc_assert(ownk == in, "C10.guard_released"); vc_cover("end"); vc_end(); }
  old_ = ownk; cut = 1; delete g; cut = 0; vc_assert(!ownk, "C10.released_once"); vc_cover("end"); }
ENTRY(range_try_lock) { rstart(); It b = {0}, e = {N_}; try { It r = boost::try_lock(b, e); if (vc_fork(r.i == N_)) { vc_assert(ownk || N_ == 0, "C10.all_locked"); vc_assert(ff < 0, "C10.identifies_first_failure"); vc_cover("locked"); } else { vc_assert(r.i == ff, "C10.identifies_first_failure"); vc_assert(!ownk, "C10.none_left_locked"); vc_cover("failed"); } } catch (Boom&) { vc_assert(!ownk, "C10.none_left_locked"); vc_cover("threw"); } vc_cover("end"); }
ENTRY(range_lock) { rstart(); It b = {0}, e = {N_}; try { boost::lock(b, e); vc_assert(ownk || N_ == 0, "C10.all_locked"); vc_cover("locked"); } catch (Boom&) { vc_assert(!ownk, "C10.none_left_locked"); vc_cover("threw"); } vc_cover("end"); }
