#include "vc_boost.h"
#include <boost/thread/mutex.hpp>
#include <boost/thread/condition_variable.hpp>
#include <boost/thread/thread.hpp>
#include <boost/thread/pthread/thread_data.hpp>
namespace bc = boost::chrono; namespace bd = boost::detail; namespace bt = boost::this_thread; typedef bc::steady_clock Mono; typedef bc::system_clock Sys;
namespace boost { namespace detail { thread_data_base* get_or_make_current_thread_data(); } }
static const int64_t NOW = 5000000000LL, FARNS = 1000000000000000LL; static int fardl = -1;
static bool lastfar = true; static int64_t dl() { bool f = fardl >= 0 ? fardl : vc_choose("far"); lastfar = f; return f ? FARNS : NOW - 1000; }
static Mono::time_point mono() { return Mono::time_point(bc::nanoseconds(dl())); } static Sys::time_point sys() { return Sys::time_point(bc::nanoseconds(dl())); } static boost::posix_time::ptime pt() { return vc_ptime_us(dl() / 1000); }
static bc::nanoseconds rd() { return bc::nanoseconds(dl() - NOW); } static boost::posix_time::time_duration rt() { return boost::posix_time::microseconds((dl() - NOW) / 1000); }
// ------------------------------------------------ contract of every interruption point, for any behaviour of the interrupting threads
// requests arrive whenever data_mutex is free; only this thread consumes them, under data_mutex, and exactly one per exception
static bd::thread_data_base* td; static bool atacq; static int consumed, flag;
static void data_acq(void*) { flag = 1; if (!td->interrupt_requested && vc_choose("interrupt")) td->interrupt_requested = true; atacq = td->interrupt_requested; }
static void data_rel(void*) { flag = 0; bool r = vc_fork(td->interrupt_requested); if (atacq && !r) { if (consumed < 3) consumed++; } vc_assert(atacq || !r, "C04.request_not_invented"); }
static int on_result(pthread_cond_t*, bool timed) { if (timed && vc_choose("etimedout")) return ETIMEDOUT; return 0; }
static void clocks() { vc_env.clk_fixed = 2; vc_env.clk[0] = vc_env.clk[1] = NOW; vc_env.clk_late = FARNS * 3; vc_env.wait_result = on_result; }
static bool en, pend, need = true; // need: the operation really is an interruption point (a sleep until a time already past is none)
static void begin() { clocks(); td = bd::get_or_make_current_thread_data(); en = vc_choose("enabled"); pend = vc_choose("pending"); td->interrupt_enabled = en; td->interrupt_requested = pend; consumed = 0; flag = 0; vc_monitor(td->data_mutex.native_handle(), data_acq, data_rel, 0); vc_guard_add((void*)&td->interrupt_requested, 1, &flag, "C04.guarded_state"); }
static void finish(bool thrown) { vc_guard_clear(); vc_assert(!flag, "C04.data_mutex_released"); vc_assert(consumed == (thrown ? 1 : 0), "C04.each_exception_consumes_one_request"); if (!en) { vc_assert(!thrown, "C04.not_thrown_while_disabled"); vc_assert(!pend || td->interrupt_requested, "C04.request_kept_while_disabled"); }
  if (en && pend && need) vc_assert(thrown, "C04.pending_request_delivered"); vc_assert(td->interrupt_enabled == en, "C04.enabled_state_unchanged"); vc_assert(!td->current_cond && !td->cond_mutex, "C04.no_stale_wait_registration"); if (thrown) vc_cover("thrown"); else vc_cover("returned"); vc_cover("end"); }
struct ALock { void lock() {} void unlock() {} };
#define IP(name, expr) ENTRY(name) { begin(); boost::mutex mx; boost::condition_variable c; boost::condition_variable_any a; boost::unique_lock<boost::mutex> l(mx); ALock al; bool thrown = false; try { expr; } catch (boost::thread_interrupted&) { thrown = true; } finish(thrown); }
IP(interruption_point, bt::interruption_point()) IP(cv_wait, c.wait(l)) IP(cv_wait_until_steady, c.wait_until(l, mono())) IP(cv_wait_until_system, c.wait_until(l, sys())) IP(cv_wait_for, c.wait_for(l, rd())) IP(cv_timed_wait_abs, c.timed_wait(l, pt())) IP(cv_timed_wait_rel, c.timed_wait(l, rt()))
IP(any_wait, a.wait(al)) IP(any_wait_until_steady, a.wait_until(al, mono())) IP(any_wait_until_system, a.wait_until(al, sys())) IP(any_wait_for, a.wait_for(al, rd())) IP(any_timed_wait_abs, a.timed_wait(al, pt())) IP(any_timed_wait_rel, a.timed_wait(al, rt()))
#define SL(name, expr) ENTRY(name) { begin(); bool stands = vc_choose("clock_stands"); if (stands) vc_env.clk_fixed = 1; bool thrown = false; try { expr; } catch (boost::thread_interrupted&) { thrown = true; } need = stands && lastfar; finish(thrown); }
SL(sleep_until_steady, bt::sleep_until(mono())) SL(sleep_until_system, bt::sleep_until(sys())) SL(sleep_for, bt::sleep_for(rd())) SL(sleep_abs, bt::sleep(pt())) SL(sleep_rel, bt::sleep(rt()))
// waits inside which interruption is disabled never consume or throw
#define NIP(name, expr) ENTRY(np_##name) { begin(); bool thrown = false; boost::mutex mx; try { expr; } catch (boost::thread_interrupted&) { thrown = true; } vc_guard_clear(); vc_assert(!thrown && consumed == 0, "C04.no_interruption_point_never_throws"); vc_assert(!pend || td->interrupt_requested, "C04.request_kept"); vc_assert(td->interrupt_enabled == en, "C04.enabled_state_unchanged"); vc_cover("end"); }
NIP(sleep_until_steady, bt::no_interruption_point::sleep_until(mono())) NIP(sleep_until_system, bt::no_interruption_point::sleep_until(sys())) NIP(sleep_for, bt::no_interruption_point::sleep_for(rd())) NIP(sleep_abs, bt::no_interruption_point::sleep(pt())) NIP(sleep_rel, bt::no_interruption_point::sleep(rt())) NIP(yield, bt::yield()) NIP(mutex_lock, (mx.lock(), mx.unlock()))
ENTRY(disabled_scope_wait) { begin(); boost::mutex mx; boost::condition_variable c; boost::unique_lock<boost::mutex> l(mx); bool thrown = false; try { bt::disable_interruption di; c.wait(l); bt::sleep_for(rd()); bt::interruption_point(); } catch (boost::thread_interrupted&) { thrown = true; } vc_assert(!thrown && consumed == 0, "C04.not_thrown_while_disabled"); vc_assert(td->interrupt_enabled == en, "C04.enabled_state_unchanged"); flag = 1; bool p = vc_fork(td->interrupt_requested); flag = 0; vc_assert(!pend || p, "C04.request_kept_while_disabled"); pend = p; thrown = false; try { bt::interruption_point(); } catch (boost::thread_interrupted&) { thrown = true; } finish(thrown); }
// a thread boost.thread knows nothing about is never interrupted
ENTRY(no_data) { boost::mutex mx; boost::condition_variable c; boost::unique_lock<boost::mutex> l(mx); clocks(); bool thrown = false; try { bt::interruption_point(); c.wait(l); bt::sleep_for(rd()); } catch (boost::thread_interrupted&) { thrown = true; } vc_assert(!thrown, "C04.not_thrown_without_request"); vc_assert(!bt::interruption_enabled() && !bt::interruption_requested(), "C04.queries_without_data"); { bt::disable_interruption di; vc_assert(!bt::interruption_enabled(), "C04.queries_without_data"); bt::restore_interruption ri(di); vc_assert(!bt::interruption_enabled(), "C04.queries_without_data"); } vc_assert(!bt::interruption_enabled(), "C04.queries_without_data"); vc_cover("end"); }
// ------------------------------------------------ disable / restore: contracts that compose to any nesting depth
ENTRY(disable_restore) { bool has = vc_choose("has_data"); bool e = has && vc_choose("enabled"); if (has) { bd::get_or_make_current_thread_data()->interrupt_enabled = e; } vc_assert(bt::interruption_enabled() == e, "C04.interruption_enabled_exact");
  { bt::disable_interruption d; vc_assert(!bt::interruption_enabled(), "C04.disable_disables"); if (!has && vc_choose("data_created_inside")) bd::get_or_make_current_thread_data(); vc_assert(!bt::interruption_enabled(), "C04.disable_disables");
    if (vc_choose("restore")) { { bt::restore_interruption r(d); vc_assert(bt::interruption_enabled() == e, "C04.restore_restores_state_before_disable"); if (vc_choose("nested")) { { bt::disable_interruption d2; vc_assert(!bt::interruption_enabled(), "C04.disable_disables"); { bt::restore_interruption r2(d2); vc_assert(bt::interruption_enabled() == e, "C04.restore_restores_state_before_disable"); } vc_assert(!bt::interruption_enabled(), "C04.restore_scope_ends"); } vc_assert(bt::interruption_enabled() == e, "C04.disable_scope_ends"); } } vc_assert(!bt::interruption_enabled(), "C04.restore_scope_ends"); }
    else if (vc_choose("nested")) { { bt::disable_interruption d2; vc_assert(!bt::interruption_enabled(), "C04.disable_disables"); bt::restore_interruption r2(d2); vc_assert(!bt::interruption_enabled(), "C04.restore_restores_state_before_disable"); } vc_assert(!bt::interruption_enabled(), "C04.disable_scope_ends"); } }
  vc_assert(bt::interruption_enabled() == e, "C04.disable_scope_ends"); vc_cover("end"); }
// ------------------------------------------------ requesting and querying
static boost::thread* handle(bd::thread_data_base* t) { boost::thread* h = new boost::thread; h->thread_info = t->shared_from_this(); return h; }
ENTRY(interrupt_and_queries) { td = bd::get_or_make_current_thread_data(); bool e = vc_choose("enabled"), r = vc_choose("requested"); td->interrupt_enabled = e; td->interrupt_requested = r; flag = 0; struct G { static void a(void*) { flag = 1; } static void b(void*) { flag = 0; } }; vc_monitor(td->data_mutex.native_handle(), G::a, G::b, 0); vc_guard_add((void*)&td->interrupt_requested, 1, &flag, "C04.guarded_state");
  boost::thread& h = *handle(td); vc_assert(bt::interruption_requested() == r && h.interruption_requested() == r && bt::interruption_enabled() == e, "C04.queries_exact");
  boost::mutex mx; boost::condition_variable c; bool w = vc_choose("target_waits"); if (w) { td->cond_mutex = &c.internal_mutex; td->current_cond = &c.cond; } h.interrupt(); vc_assert(bt::interruption_requested() && h.interruption_requested() && bt::interruption_enabled() == e, "C04.interrupt_records_request"); vc_assert((VCn(&c.cond)->bcasts + VCn(&c.cond)->signals > 0) == w, "C04.interrupt_wakes_exactly_the_wait_in_progress"); if (w) vc_assert(VCn(&c.cond)->bcasts > 0, "C04.interrupt_reaches_the_target_among_any_other_waiters"); // a single signal may go to another thread waiting on the same condition
  vc_assert(!vc_held(&c.internal_mutex) && !flag, "C04.internal_mutex_released");
  boost::thread none; none.interrupt(); vc_assert(!none.interruption_requested(), "C04.not_a_thread"); vc_guard_clear(); vc_cover("end"); }
// a thread started by boost::thread begins with interruption enabled and nothing requested
static int ran; static void fresh() { ran++; vc_assert(bt::interruption_enabled() && !bt::interruption_requested(), "C04.new_thread_starts_enabled"); }
static int run_body(void* (*f)(void*), void* a) { int o = vc_self; vc_self = 2; f(a); vc_self = o; return 0; }
ENTRY(new_thread) { vc_env.create_hook = run_body; { boost::thread t(fresh); t.join(); } vc_assert(ran == 1, "C04.body_ran"); vc_cover("end"); }
// ------------------------------------------------ schedules: a blocked (or about to block) thread and its interrupters, every interleaving
static int form, caught; static bool ended; static bd::thread_data_base* wd; static boost::thread *hw, *tj;
static void blocked(int f) { fardl = 1; static boost::mutex* mx; mx = new boost::mutex; boost::condition_variable& c = *new boost::condition_variable; boost::condition_variable_any& a = *new boost::condition_variable_any; boost::unique_lock<boost::mutex> l(*mx); ALock al;
  switch (f) { case 0: c.wait(l); break; case 1: c.wait_until(l, mono()); break; case 2: c.timed_wait(l, pt()); break; case 3: a.wait(al); break; case 4: a.wait_until(al, mono()); break; case 5: a.timed_wait(al, pt()); break; case 6: bt::sleep_until(mono()); break; case 7: bt::sleep_for(rd()); break; case 8: bt::sleep(pt()); break; case 9: bt::sleep(rt()); break; case 10: tj->join(); break; case 11: tj->try_join_until(mono()); break; case 12: tj->timed_join(pt()); break; } }
static void victim(void*) { wd = bd::get_or_make_current_thread_data(); wd->interrupt_enabled = true; hw = handle(wd); try { blocked(form); } catch (boost::thread_interrupted&) { caught++; } ended = true; }
static void killer(void*) { if (hw) hw->interrupt(); }
static void never(){}
static void race(int f, int killers) { vc_env.clk_fixed = 1; vc_env.clk[0] = vc_env.clk[1] = NOW; form = f; vc_sched_start(); vc_self = 7; if (f >= 10) tj = new boost::thread(never); vc_self = 0; vc_sched.preempt = -1; int w = vc_thread(victim, 0); // the victim must have started: run it to its first scheduling point
  int k = vc_thread(killer, 0); int k2 = killers > 1 ? vc_thread(killer, 0) : 0; vc_run(); vc_assert(vc_done(k) && (!k2 || vc_done(k2)), "C04.interrupt_does_not_block"); if (hw && caught + (wd->interrupt_requested ? 1 : 0) > 0) { vc_assert(vc_done(w) && caught == 1, "C04.interrupted_wait_is_woken_and_throws_once"); if (killers == 1) vc_assert(!wd->interrupt_requested, "C04.request_consumed"); if (f >= 10) vc_assert(tj->joinable(), "C04.interrupted_join_leaves_thread_joinable"); vc_cover("interrupted"); } else vc_assert(!vc_done(w), "C04.not_thrown_without_request"); vc_cover("end"); }
#define RC(name, f) ENTRY(race_##name) { race(f, 1); } ENTRY(race2_##name) { race(f, 2); }
RC(cv_wait, 0) RC(cv_wait_until, 1) RC(cv_timed_wait, 2) RC(any_wait, 3) RC(any_wait_until, 4) RC(any_timed_wait, 5) RC(sleep_until, 6) RC(sleep_for, 7) RC(sleep_abs, 8) RC(sleep_rel, 9) RC(join, 10) RC(try_join_until, 11) RC(timed_join, 12)
