// C13: barrier. Thread-modular: between any two critical sections of the caller, any number of other participants arrive and whole
// generations complete; the caller's own step is checked against the barrier's contract.
#include "vc_boost.h"
#include <boost/thread/barrier.hpp>
#include <boost/thread/thread.hpp>
#include <boost/thread/pthread/thread_data.hpp>
namespace bd = boost::detail; namespace boost { namespace detail { thread_data_base* get_or_make_current_thread_data(); } }
static boost::barrier* b; static unsigned n0, g0, cn, cg, fcalls, ncalls, fres; static int nrel; static bool last, all; static boost::condition_variable* nc;
// invariant at every point where the mutex is free: 1 <= count
static void acq(void*) {
  if (nrel == 0) { b->m_count = n0 = vc_nondet_u32("count"); vc_assume(n0 >= 1); b->m_generation = g0 = vc_nondet_u32("generation"); last = n0 == 1; }
  else { vc_assert(!last, "C13.last_participant_does_not_wait"); if (vc_choose("generation_completes")) { b->m_generation = vc_nondet_u32("generation"); vc_assume(b->m_generation != g0); b->m_count = vc_nondet_u32("count"); vc_assume(b->m_count >= 1); } // later generations: not 2^32 of them during one wait
    else { unsigned c = vc_nondet_u32("count"); vc_assume(c >= 1 && c <= b->m_count); b->m_count = c; } }
  cn = b->m_count; cg = b->m_generation;
}
static void rel(void*) {
  if (nrel == 0) { if (last) { vc_assert(fcalls == ncalls, "C13.completion_once_before_release"); vc_assert(b->m_generation == g0 + 1, "C13.generation_ends_with_last_arrival"); vc_assert(b->m_count == fres, "C13.reusable_with_count_in_force"); vc_cover("last"); }
    else { vc_assert(fcalls == 0, "C13.completion_only_by_last"); vc_assert(b->m_generation == g0 && b->m_count == n0 - 1, "C13.arrival_counts_once"); vc_cover("arrived"); } }
  else vc_assert(b->m_generation == cg && b->m_count == cn, "C13.waiting_changes_nothing");
  if (nrel < 2) nrel++;
}
static void notified(pthread_cond_t* c, bool a) { if (c == &b->m_cond.cond && a) all = true; }
static bool plain;
static unsigned fu() { fcalls++; vc_assert(plain || vc_held(b->m_mutex.native_handle()), "C13.completion_before_release"); return fres; } static void fv() { fcalls++; vc_assert(plain || vc_held(b->m_mutex.native_handle()), "C13.completion_before_release"); }
struct FU { unsigned operator()() { return fu(); } }; struct FV { void operator()() { fv(); } };
static const unsigned CNT = 7; // any count: the constructor entry below covers the rest
static boost::barrier* make() { fres = CNT; ncalls = 1; int k = 0; while (k < 6 && !vc_choose("kind")) k++; static FU lu; static FV lv;
  switch (k) { case 0: ncalls = 0; return new boost::barrier(CNT); case 1: return new boost::barrier(CNT, fv); case 2: fres = vc_nondet_u32("result"); vc_assume(fres >= 1); return new boost::barrier(CNT, fu); case 3: ncalls = 0; return new boost::barrier(CNT, (void (*)())0); case 4: fres = vc_nondet_u32("result"); vc_assume(fres >= 1); return new boost::barrier(CNT, lu); case 5: return new boost::barrier(CNT, lv);
    default: fres = vc_nondet_u32("result"); vc_assume(fres >= 1); return new boost::barrier(CNT, FU()); } }
static void waits(pthread_cond_t*, pthread_mutex_t*) { vc_assert(cg == g0, "C13.released_once_generation_complete"); }
static void env() { b = make(); vc_monitor(b->m_mutex.native_handle(), acq, rel, 0); vc_env.notify_hook = notified; vc_env.wait_hook = waits; if (vc_choose("interruptible")) { bd::thread_data_base* t = bd::get_or_make_current_thread_data(); t->interrupt_enabled = true; t->interrupt_requested = vc_choose("interrupt"); } }
ENTRY(wait) { env(); bool r; try { r = b->wait(); } catch (boost::thread_interrupted&) { vc_assert(!last, "C13.last_participant_is_not_interrupted"); vc_cover("interrupted"); vc_end(); } vc_assert(nrel > 0 && !vc_held(b->m_mutex.native_handle()), "C13.lock_released"); vc_assert(r == last, "C13.true_for_exactly_the_last"); vc_assert(last || cg != g0, "C13.returns_only_after_generation_complete"); if (last) vc_assert(all, "C13.every_participant_notified"); vc_cover(r ? "true" : "false"); vc_cover("end"); }
ENTRY(count_down_and_wait) { env(); try { b->count_down_and_wait(); } catch (boost::thread_interrupted&) { vc_cover("interrupted"); vc_end(); } vc_assert(nrel > 0 && !vc_held(b->m_mutex.native_handle()), "C13.lock_released"); vc_assert(last || cg != g0, "C13.returns_only_after_generation_complete"); if (last) vc_assert(all, "C13.every_participant_notified"); vc_cover("end"); }
// construction: count zero rejected by every constructor, any other count in force at once
static void ctor(int k, unsigned n) { switch (k) { case 0: b = new boost::barrier(n); break; case 1: b = new boost::barrier(n, fv); break; case 2: b = new boost::barrier(n, fu); break; case 3: b = new boost::barrier(n, (void (*)())0); break; case 4: b = new boost::barrier(n, (unsigned (*)())0); break; case 5: { FU f; b = new boost::barrier(n, f); break; } case 6: { FV f; b = new boost::barrier(n, f); break; } case 7: b = new boost::barrier(n, FU()); break; default: b = new boost::barrier(n, FV()); break; } }
ENTRY(ctor) { plain = true; int k = 0; while (k < 8 && !vc_choose("kind")) k++; unsigned n = vc_nondet_u32("n"); bool t = false; try { ctor(k, n); } catch (boost::thread_exception& e) { t = true; vc_assert(e.native_error() == EINVAL, "C13.zero_count_rejected"); vc_cover("rejected"); } vc_assert(t == (n == 0), "C13.zero_count_rejected");
  if (!t) { vc_assert(b->m_count == n && fcalls == 0, "C13.constructed_count"); fres = n; unsigned r = (unsigned)b->fct_(); vc_assert(r == n, "C13.count_restored"); vc_assert(fcalls == (k == 0 || k == 3 || k == 4 ? 0u : 1u), "C13.completion_called"); } vc_cover("end"); }
// ------------------------------------------------ schedules: every interleaving (with spurious wake-ups) of whole generations
static int lazy = 1, arrived, ret_, trues, group, rounds, comp, done_gen;
static unsigned next_count;
static unsigned comp_f() { comp++; vc_assert(arrived == group * comp && ret_ <= group * (comp - 1), "C13.completion_before_release"); return next_count; }
static void part(void*) { for (int r = 1; r <= rounds; r++) { arrived++; bool t = b->wait(); vc_assert(arrived >= group * r, "C13.returns_only_after_generation_complete"); vc_assert(comp >= r, "C13.completion_before_release"); ret_++; trues += t; vc_assert(trues <= comp, "C13.true_for_exactly_the_last"); } }
static void sched(int g, int r) { group = g; rounds = r; next_count = g; b = new boost::barrier(g, comp_f); vc_sched_start(); vc_sched.preempt = -1; vc_sched.lazy = lazy; vc_sched.spurious = 1; for (int i = 0; i < g; i++) vc_thread(part, 0); vc_run(); for (int i = 1; i <= g; i++) vc_assert(vc_done(i), "C13.every_participant_released"); vc_assert(trues == r && comp == r, "C13.exactly_one_true_per_generation"); vc_cover("end"); }
ENTRY(sched1x3) { sched(1, 3); } ENTRY(sched2x1) { sched(2, 1); } ENTRY(sched2x2) { sched(2, 2); } ENTRY(sched2x3) { sched(2, 3); } ENTRY(sched3x1) { sched(3, 1); } ENTRY(sched3x2) { sched(3, 2); }
// four callers, groups of two: whatever the pairing, two generations complete and two callers get true
static void any_(void*) { bool t = b->wait(); ret_++; trues += t; }
static unsigned comp_g() { comp++; vc_assert(ret_ <= 2 * (comp - 1), "C13.completion_before_release"); return 2; }
ENTRY(sched4in2) { b = new boost::barrier(2, comp_g); vc_sched_start(); vc_sched.preempt = -1; vc_sched.lazy = lazy; for (int i = 0; i < 4; i++) vc_thread(any_, 0); vc_run(); for (int i = 1; i <= 4; i++) vc_assert(vc_done(i), "C13.every_participant_released"); vc_assert(trues == 2 && comp == 2, "C13.exactly_one_true_per_generation"); vc_cover("end"); }
// the completion function supplies another count: 1 then 2, 2 then 1
static unsigned comp_h() { comp++; return next_count; }
static void changes(int a, int c) { next_count = c; b = new boost::barrier(a, comp_h); vc_sched_start(); vc_sched.preempt = -1; vc_sched.lazy = lazy; for (int i = 0; i < 3; i++) vc_thread(any_, 0); vc_run(); for (int i = 1; i <= 3; i++) vc_assert(vc_done(i), "C13.every_participant_released"); vc_assert(trues == 2 && comp == 2, "C13.exactly_one_true_per_generation"); vc_cover("end"); }
ENTRY(sched_count_1_2) { changes(1, 2); } ENTRY(sched_count_2_1) { changes(2, 1); }
