#include "vc_boost.h"
#include <string.h>
#include <sched.h>
#include <boost/thread/once.hpp>
// The representation is calibrated by behaviour: fresh flag (U), flag while a function runs (I), flag after completion (D).
typedef boost::once_flag Flag; static const int FS = sizeof(Flag); struct Img { unsigned char b[FS]; };
static Img img(Flag& f) { Img i; memcpy(i.b, (void*)&f, FS); return i; } static void put(Flag& f, Img i) { memcpy((void*)&f, i.b, FS); } static bool same(Img a, Img b) { for (int i = 0; i < FS; i++) if (a.b[i] != b.b[i]) return false; return true; }
static Flag FU = BOOST_ONCE_INIT; static Img U, I, D; static Flag* cal; static void calf() { I = img(*cal); }
static void calibrate() { U = img(FU); static Flag f = BOOST_ONCE_INIT; cal = &f; boost::call_once(f, calf); D = img(f); vc_assert(!same(U, I) && !same(I, D) && !same(U, D), "C05.three_states"); }
// ---------------------------------------------------------------- thread-modular: any number of other callers
// rely: others take U->I, I->U, I->D at any time unless this thread's function is in progress; D is final
static Flag F_ = BOOST_ONCE_INIT; static Flag& F = F_; static bool others, mine, mine_done, start_done, env_in, waited; static int ran; struct Ex { int v; };
static void havoc() { if (mine || mine_done) return; Img c = img(F); if (same(c, D)) return; vc_assert(same(c, U) || same(c, I), "C05.flag_state"); int k = vc_choose("others_in_progress") ? 1 : vc_choose("others_done") ? 2 : 0; put(F, k == 1 ? I : k == 2 ? D : U); env_in = k == 1; }
static void on_atomic(void* p, int) { if (others && p >= (void*)&F && p < (void*)(&F + 1)) havoc(); }
static void on_wait(pthread_cond_t*, pthread_mutex_t*) { if (!others) return; waited = true; vc_assert(!mine && !mine_done, "C05.owner_does_not_wait"); } static void on_woken(pthread_cond_t*, pthread_mutex_t*) { if (others) havoc(); }
static int a1, a2, a3; static void body(int n, int x, int y, int z) { vc_assert(same(img(F), I) && !env_in && !mine && !mine_done && !start_done, "C05.runs_only_as_the_single_executor"); vc_assert(x == (n > 0 ? a1 : 0) && y == (n > 1 ? a2 : 0) && z == (n > 2 ? a3 : 0), "C05.arguments_passed"); mine = true; if (ran < 3) ran++; bool t = vc_choose("throws"); mine = false; mine_done = true; if (t) { vc_cover("threw"); throw Ex{42}; } }
static void f0() { body(0, 0, 0, 0); } static void f1(int x) { body(1, x, 0, 0); } static void f2(int x, int y) { body(2, x, y, 0); } static void f3(int x, int y, int z) { body(3, x, y, z); } struct Fn { void operator()() const { body(0, 0, 0, 0); } };
#define ON(name, expr) ENTRY(once_##name) { calibrate(); vc_env.atomic_hook = on_atomic; vc_atomic_hook_on = 1; vc_env.wait_hook = on_wait; vc_env.woken_hook = on_woken; others = true; a1 = vc_i32("a1"); a2 = vc_i32("a2"); a3 = vc_i32("a3"); int k = vc_choose("s1") ? 1 : vc_choose("s2") ? 2 : 0; put(F, k == 1 ? I : k == 2 ? D : U); env_in = k == 1; start_done = k == 2; bool thrown = false; \
  try { expr; } catch (Ex& e) { thrown = true; vc_assert(e.v == 42, "C05.exception_reaches_caller"); } Img c = img(F); others = false; \
  if (thrown) { vc_assert(ran == 1 && same(c, U), "C05.failed_run_makes_flag_available"); vc_cover("thrown"); } else { vc_assert(same(c, D), "C05.returns_only_after_completion"); vc_assert(ran <= 1, "C05.runs_at_most_once"); if (ran) vc_cover("ran"); else vc_cover("not_ran"); } if (start_done) vc_assert(!ran && !waited, "C05.completed_flag_neither_runs_nor_blocks"); vc_cover("end"); }
ON(fn, boost::call_once(F, f0)) ON(obj, boost::call_once(F, Fn())) ON(lvalue_obj, { Fn fn; boost::call_once(F, fn); }) ON(arg1, boost::call_once(F, f1, a1)) ON(arg2, boost::call_once(F, f2, a1, a2)) ON(arg3, boost::call_once(F, f3, a1, a2, a3))
#ifdef BOOST_THREAD_PROVIDES_ONCE_CXX11
static int lam_ran; ON(lambda, boost::call_once(F, [&](int x) { body(1, x, 0, 0); }, (int)a1))
#else
ON(legacy, boost::call_once(f0, F)) 
#endif
// ---------------------------------------------------------------- schedules: every interleaving of 2 and 3 callers whose functions may throw
static Flag G = BOOST_ONCE_INIT; static int running, completed, again; static void g() { vc_assert(running == 0, "C05.executions_do_not_overlap"); vc_assert(completed == 0, "C05.never_runs_after_completion"); running++; vc_yield_point(); bool t = vc_choose("throws"); running--; if (t) throw Ex{1}; completed++; }
static void caller(void*) { for (int i = 0; i <= again; i++) try { boost::call_once(G, g); vc_assert(completed == 1 && running == 0, "C05.returns_only_after_completion"); } catch (Ex&) {} }
static void sched(int n, int ag) { again = ag; vc_atomic_hook_on = 1; vc_sched_start(); vc_sched.preempt = -1; vc_sched.spurious = n < 3 ? 1 : 0; int id[3]; for (int i = 0; i < n; i++) id[i] = vc_thread(caller, 0); vc_run(); for (int i = 0; i < n; i++) vc_assert(vc_done(id[i]), "C05.waiters_are_woken"); vc_assert(completed <= 1, "C05.completes_once"); if (completed) vc_cover("completed"); else vc_cover("all_threw"); vc_cover("end"); }
ENTRY(sched2) { sched(2, 0); } ENTRY(sched2_twice) { sched(2, 1); } ENTRY(sched3) { sched(3, 0); }
// independent flags do not disturb each other, and recursion into another flag works
static Flag H = BOOST_ONCE_INIT; static int hr; static void h() { hr++; } static void outer() { boost::call_once(H, h); completed++; }
ENTRY(nested_other_flag) { boost::call_once(G, outer); boost::call_once(G, outer); boost::call_once(H, h); vc_assert(completed == 1 && hr == 1, "C05.flags_are_independent"); vc_cover("end"); }
// two flags waited for at once: whichever run ends, with success or not, every thread waiting for that flag goes on (waiters of different flags may share a condition)
static Flag A = BOOST_ONCE_INIT, B = BOOST_ONCE_INIT; static bool goA, goB; static int nA, nB, outB;
static void fA() { nA++; while (!goA) sched_yield(); } static void fB() { nB++; while (!goB) sched_yield(); if (nB == 1 && vc_choose("throws")) { vc_cover("threw"); throw Ex{1}; } }
static void callA(void*) { boost::call_once(A, fA); } static void callB(void*) { try { boost::call_once(B, fB); } catch (Ex&) {} outB++; }
ENTRY(two_flags_waited_for) { vc_sched_start(); int a1 = vc_thread(callA, 0), b1 = vc_thread(callB, 0), a2 = vc_thread(callA, 0), b2 = vc_thread(callB, 0), b3 = vc_thread(callB, 0); vc_step(a1); vc_step(b1); int first = vc_choose("a_waits_first") ? a2 : b2; vc_step(first); vc_step(first == a2 ? b2 : a2); vc_step(b3); vc_assert(nA == 1 && nB == 1 && vc_sched.t[a2].st != VT_DONE && vc_sched.t[b2].st != VT_DONE && vc_sched.t[b3].st != VT_DONE, "C05.others_wait_for_the_run_in_progress"); goB = true; vc_step(b1);
  for (int k = 0; k < 12; k++) for (int i = 1; i <= 5; i++) if (i != a1) { VThread& t = vc_sched.t[i]; if (t.st == VT_READY || (t.st == VT_COND && t.notified) || (t.st == VT_MUTEX && !VM(t.m)->owner)) vc_step(i); }
  vc_assert(outB == 3 && nB <= 2, "C05.waiters_are_woken"); vc_cover("end"); }
