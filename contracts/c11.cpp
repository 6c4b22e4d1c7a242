// C11: boost::thread. Construction against every result of pthread_create and both orders of start and return; join/detach/timed joins
// thread-modular over the thread's record (monitor: data_mutex); handle operations from every state; schedules.
#include "vc_boost.h"
#include <boost/thread/thread.hpp>
#include <boost/thread/pthread/thread_data.hpp>
#include <boost/bind/bind.hpp>
#include <memory>
namespace bc = boost::chrono; namespace bd = boost::detail; namespace bt = boost::this_thread; namespace pt = boost::posix_time; typedef bc::steady_clock Mono; typedef bc::system_clock Sys; typedef boost::thread TH;
namespace boost { namespace detail { thread_data_base* get_or_make_current_thread_data(); } }
// ---------------------------------------------------------------- construction
static int calls, who, g1, g2, live, thrown; static TH::id inside; static bool done_early; static bd::thread_data_base* rec;
static void hit(int a, int b) { calls++; who = vc_self; g1 = a; g2 = b; inside = bt::get_id(); rec = bd::get_current_thread_data(); vc_assert(!rec->done, "C11.not_done_before_the_function_returns"); if (vc_choose("function_interrupted")) { thrown++; throw boost::thread_interrupted(); } }
static void f0() { hit(0, 0); } static void f2(int a, int b) { hit(a, b); } static void fm(std::unique_ptr<int> p, int b) { hit(*p, b); }
struct Fn { int v; Fn(int v_) : v(v_) { live++; } Fn(const Fn& o) : v(o.v) { live++; } ~Fn() { live--; v = -9; } void operator()() { hit(v, 0); v++; } void operator()(int a) { hit(v, a); } void mem(int a) { hit(v, a); } };
struct FMo { int v; FMo(int v_) : v(v_) { live++; } FMo(FMo&& o) : v(o.v) { o.v = -1; live++; } ~FMo() { live--; } FMo(const FMo&) = delete; void operator()() { hit(v, 0); } };
static bool early, created; static void* (*body)(void*); static void* bodyarg; static void runbody() { int o = vc_self; vc_self = 2; vc_env.pself = 101; body(bodyarg); vc_env.pself = 0; vc_self = o; }
static int on_create(void* (*f)(void*), void* a) { created = true; vc_alloc_may_fail = 0; body = f; bodyarg = a; early = vc_choose("runs_before_create_returns"); if (early) runbody(); return 0; }
static int joins; static void on_join(int t) { vc_assert(t == 101, "C11.joins_its_thread"); joins++; vc_assert(calls == 1, "C11.join_after_the_function"); }
static int A1, A2; static Fn* fp; static bool detached;
enum { PTR, LV, RV, MO, REF, ARGS, ARGMO, LVARG, MEM, BIND, ATTR, ATTRARGS, DETACHED, NK };
template <class X> static void use(TH& t, X&) {}
static TH mk(int k, Fn& f) { boost::thread_attributes att; const boost::thread_attributes& at = att; if (k == ATTR || k == ATTRARGS) att.set_stack_size(1 << 20); if (k == DETACHED) pthread_attr_setdetachstate(att.native_handle(), PTHREAD_CREATE_DETACHED);
  switch (k) { case PTR: return TH(f0); case LV: return TH(f); case RV: return TH(Fn(A1)); case MO: return TH(FMo(A1)); 
#ifndef BOOST_THREAD_PROVIDES_VARIADIC_THREAD
  case REF: return TH(boost::ref(f));
#endif
  case ARGS: return TH(f2, A1, A2); 
#ifdef BOOST_THREAD_PROVIDES_VARIADIC_THREAD
  case ARGMO: return TH(fm, std::unique_ptr<int>(new int(A1)), A2); case ATTRARGS: return TH(at, f2, A1, A2);
#endif
  case LVARG: return TH(f, A2); case MEM: return TH(&Fn::mem, f, A2); case BIND: return TH(boost::bind(f2, A1, A2)); case ATTR: return TH(at, f); default: return TH(at, f); } }
static void ctor(int k) { vc_self = 1; TH::id me = bt::get_id(); vc_assert(me != TH::id(), "C11.every_thread_has_an_id"); A1 = vc_i32("a1"); A2 = vc_i32("a2"); { uint64_t h0 = vcx_heap_count(); bool failed = false; { Fn f(A1); int l0 = live; vc_env.create_err = 2 | 16 | 64; vc_env.create_hook = on_create; vc_env.join_hook = on_join;
    if (vc_choose("out_of_memory")) vc_alloc_may_fail = 1; try { TH t(mk(k, f)); vc_env.create_err = 0; vc_assert(created, "C11.success_only_if_the_thread_was_created"); bool det = k == DETACHED; vc_assert(t.joinable() == !det, "C11.joinable_for_its_thread"); TH::id id = t.get_id(); vc_assert((id == TH::id()) == det, "C11.id_iff_joinable"); vc_assert(id != me, "C11.ids_differ"); if (!early) { vc_assert(calls == 0, "C11.runs_only_on_the_new_thread"); bool jf = !det && vc_choose("moved"); if (jf) { TH u(boost::move(t)); vc_assert(!t.joinable() && u.joinable() && u.get_id() == id, "C11.ownership_moves"); t = boost::move(u); } runbody(); }
      vc_assert(calls == 1 && who == 2, "C11.runs_exactly_once_on_the_new_thread"); bool a1 = k == LV || k == RV || k == MO || k == REF || k == ATTR || k == DETACHED, both = k == ARGS || k == ARGMO || k == LVARG || k == MEM || k == BIND || k == ATTRARGS; if (a1 || both) vc_assert(g1 == A1, "C11.runs_with_its_arguments"); if (both) vc_assert(g2 == A2, "C11.runs_with_its_arguments"); if (!det) vc_assert(inside == id && inside != me, "C11.same_id_inside_and_outside"); inside = TH::id(); vc_assert(f.v == (k == REF && !thrown ? A1 + 1 : A1), "C11.runs_a_copy_of_its_arguments");
      if (!det) { vc_assert(rec->done, "C11.done_when_finished"); t.join(); vc_assert(joins == 1 && !t.joinable() && t.get_id() == TH::id(), "C11.join_makes_it_not_joinable"); } vc_cover("ran"); }
    catch (boost::thread_resource_error& e) { failed = true; vc_alloc_may_fail = 0; vc_assert(!created && calls == 0, "C11.failed_construction_runs_nothing"); vc_cover("failed"); } catch (std::bad_alloc&) { vc_alloc_may_fail = 0; failed = true; vc_assert(!created && calls == 0, "C11.failed_construction_runs_nothing"); vc_cover("no_memory"); } vc_alloc_may_fail = 0;
    vc_assert(live == l0, "C11.no_resources_leaked"); } inside = TH::id(); rec = 0; if (failed || k != DETACHED) vc_assert(vcx_heap_count() == h0, "C11.no_resources_leaked"); else vc_assert(vcx_heap_count() == h0, "C11.detached_thread_releases_its_record"); }
  vc_assert(vc_env.ncreated == (created ? 1 : 0) && vc_env.njoined == joins && vc_env.ndetached == 0, "C11.one_thread"); vc_cover("end"); }
#define CT(n, k) ENTRY(ctor_##n) { ctor(k); }
CT(pointer, PTR) CT(copied, LV) CT(moved, RV) CT(move_only, MO) CT(two_arguments, ARGS) CT(functor_and_argument, LVARG) CT(member_function, MEM) CT(bound, BIND) CT(attributes, ATTR) CT(detached, DETACHED)
#ifndef BOOST_THREAD_PROVIDES_VARIADIC_THREAD
CT(by_reference, REF)
#else
CT(move_only_argument, ARGMO) CT(attributes_and_arguments, ATTRARGS)
#endif
// ---------------------------------------------------------------- joining and detaching, for any behaviour of the thread and of other joiners
struct TD : bd::thread_data_base { void run() {} ~TD() {} };
static TD* td; static bool mine, jd, det_, D, S, J, d0, s0, jn0; static int nacq; static const int64_t HI = 4000000000000000000LL;
// D done, S somebody has taken the duty to join (or detached), J that has happened; only whoever takes the duty completes it, and joins only a finished thread
static void acq(void*) { bool d = vc_nondet_bool("done"), s = vc_nondet_bool("join_started"), j = vc_nondet_bool("joined"); vc_assume(!j | s); vc_assume(!D | d); vc_assume(!S | s); vc_assume(!J | j); if (mine) vc_assume(j == J); vc_assume(!s | j | d); td->done = d0 = D = d; td->join_started = s0 = S = s; td->joined = jn0 = J = j; nacq = 1; }
static void rel(void*) { bool d = td->done, s = td->join_started, j = td->joined; vc_assert(d == d0, "C11.only_the_thread_itself_is_done"); vc_assert(s | !s0, "C11.join_flags_only_rise"); vc_assert(j | !jn0, "C11.join_flags_only_rise"); if (vc_fork(s & !s0)) { mine = true; if (det_) vc_assert(j, "C11.detach_leaves_nothing_to_join"); else vc_assert(d, "C11.joins_only_a_finished_thread"); } if (vc_fork(j & !jn0)) { vc_assert(mine && vc_env.njoined + vc_env.ndetached == 1, "C11.joined_only_after_joining"); if (!det_) vc_assert(VCn(&td->done_condition.cond)->bcasts > 0 || vc_held(td->data_mutex.native_handle()), "C11.other_joiners_are_woken"); jd = true; } S = s; J = j; }
static void waits(pthread_cond_t* c, pthread_mutex_t*) { vc_assert(!D || (S && !J), "C11.waits_only_while_it_must"); vc_assert(!mine, "C11.waits_only_while_it_must"); vc_assert(c == &td->done_condition.cond, "C11.waits_for_the_thread"); vc_env.clk[0] = vc_env.clk_init[0] = 0; }
static void jhook(int t) { vc_assert(t == 107 && mine && !J && D && vc_env.njoined == 1 && vc_env.ndetached == 0, "C11.joined_exactly_once"); vc_assert(!vc_held(td->data_mutex.native_handle()), "C11.joins_without_the_lock"); } static void dhook(int t) { vc_assert(t == 107 && vc_env.ndetached == 1 && vc_env.njoined == 0 && det_, "C11.detached_once"); }
static timespec last_ts; static void on_timed(pthread_cond_t*, const timespec* ts) { last_ts = *ts; }
static int on_wait(pthread_cond_t* c, bool timed) { timespec last = last_ts; last_ts.tv_sec = last_ts.tv_nsec = 0; if (!timed || !vc_choose("etimedout")) return 0; int64_t t = vc_clock_read(VCn(c)->clock == CLOCK_MONOTONIC); vc_assume(t >= (int64_t)last.tv_sec * 1000000000LL + last.tv_nsec); return ETIMEDOUT; }
static TH* h; static bd::thread_data_ptr keep1; static void env() { vc_self = 1; td = new TD; bd::thread_data_ptr p(td); keep1 = p; td->thread_handle = 107; h = new TH; h->thread_info = p; vc_monitor(td->data_mutex.native_handle(), acq, rel, 0); vc_env.wait_hook = waits; vc_env.join_hook = jhook; vc_env.detach_hook = dhook; vc_env.clk_hi_s = 4000000000LL; vc_env.clock_jumps = 1; vc_env.wait_result = on_wait; vc_env.timed_hook = on_timed;
  bd::thread_data_base* me = bd::get_or_make_current_thread_data(); if (vc_choose("interruptible")) { me->interrupt_enabled = true; me->interrupt_requested = vc_choose("interrupt"); } }
static void setdl(int64_t d, int w) { vc_env.dl = d; vc_env.dlw = w; vc_env.dl_on = 1; vc_env.reached = 0; }
static Mono::time_point mono() { setdl(vc_range64("deadline", 0, HI), 1); return Mono::time_point(bc::nanoseconds(vc_env.dl)); } static Sys::time_point sys() { setdl(vc_range64("deadline", 0, HI), 0); return Sys::time_point(bc::nanoseconds(vc_env.dl)); } static pt::ptime abst() { int64_t us = vc_range64("deadline_us", 0, HI / 1000); setdl(us * 1000, 0); return vc_ptime_us(us); }
static void rel0(int64_t d) { timespec x; clock_gettime(CLOCK_MONOTONIC, &x); setdl(vc_env.clk[1] + d, 1); vc_env.reached = vc_fork(d <= 0); } static bc::nanoseconds reld() { int64_t d = vc_range64("duration", -HI, HI); rel0(d); return bc::nanoseconds(d); } static pt::time_duration relt() { int64_t us = vc_range64("duration_us", -HI / 1000, HI / 1000); rel0(us * 1000); return pt::microseconds(us); }
static void joinc(int k) { env(); bool r = true, timed = k != 0; try { switch (k) { case 0: h->join(); break; case 1: r = h->try_join_until(mono()); break; case 2: r = h->try_join_until(sys()); break; case 3: r = h->try_join_for(reld()); break; case 4: r = h->timed_join(abst()); break; default: r = h->timed_join(relt()); } }
  catch (boost::thread_interrupted&) { vc_assert(!mine && vc_env.njoined == 0, "C11.interrupted_join_joins_nothing"); vc_assert(h->joinable(), "C11.interrupted_join_leaves_it_joinable"); vc_cover("interrupted"); vc_cover("end"); vc_end(); }
  vc_assert(!vc_held(td->data_mutex.native_handle()) && nacq, "C11.lock_released"); vc_assert(vc_env.ndetached == 0, "C11.join_does_not_detach");
  if (r) { vc_assert(D, "C11.returns_only_after_the_function_finished"); vc_assert(J, "C11.returns_only_after_the_thread_was_joined"); vc_assert((vc_env.njoined == 1) == mine, "C11.joined_exactly_once"); vc_assert(!h->joinable() && h->get_id() == TH::id(), "C11.join_makes_it_not_joinable"); if (mine) vc_cover("joined"); else vc_cover("other_joined"); }
  else { vc_assert(timed && !mine && vc_env.njoined == 0, "C11.timed_out_join_joins_nothing"); vc_assert(!d0, "C11.finished_thread_is_joined"); vc_assert(vc_env.reached, "C11.gives_up_only_after_the_deadline"); vc_assert(h->joinable() && h->thread_info.get() == td, "C11.timed_out_join_leaves_it_joinable"); vc_cover("timeout"); }
  vc_cover("end"); }
ENTRY(join) { joinc(0); } ENTRY(try_join_until_steady) { joinc(1); } ENTRY(try_join_until_system) { joinc(2); } ENTRY(try_join_for) { joinc(3); } ENTRY(timed_join_abs) { joinc(4); } ENTRY(timed_join_rel) { joinc(5); }
static void detached1() { vc_assert(!h->joinable() && h->get_id() == TH::id(), "C11.detached_is_not_joinable"); vc_assert(vc_env.njoined == 0 && (vc_env.ndetached == 1) == mine && nacq, "C11.detached_once"); vc_assert(J || (S && !mine), "C11.detach_leaves_nothing_to_join"); vc_assert(vc_env.waits == 0, "C11.detach_does_not_wait"); vc_cover("end"); }
ENTRY(detach) { env(); det_ = true; h->detach(); detached1(); }
ENTRY(destroy) { env(); det_ = true; bd::thread_data_ptr keep = h->thread_info; h->~thread(); new (h) TH; detached1(); }
ENTRY(move_assign) { env(); det_ = true; bd::thread_data_ptr keep = h->thread_info, other; TH o; bool full = vc_choose("source_joinable"); if (full) { TD* t2 = new TD; other = bd::thread_data_ptr(t2); t2->thread_handle = 108; o.thread_info = other; } *h = boost::move(o); vc_assert(h->thread_info == other && !o.joinable(), "C11.ownership_moves"); vc_assert(h->joinable() == full, "C11.ownership_moves"); h->thread_info.reset(); detached1(); }
// ---------------------------------------------------------------- misuse
template <class F> static int errc(F f) { try { f(); } catch (boost::thread_resource_error& e) { return e.code().value(); } catch (boost::thread_interrupted&) { vc_assert(false, "C11.misuse_is_an_error"); } return 0; }
static void misuse(int k, TH& t) { switch (k) { case 0: t.join(); break; case 1: t.try_join_until(mono()); break; case 2: t.try_join_until(sys()); break; case 3: t.try_join_for(reld()); break; case 4: t.timed_join(abst()); break; default: t.timed_join(relt()); } }
static int pick6() { int k = 0; while (k < 5 && !vc_choose("form")) k++; return k; }
ENTRY(join_not_joinable) { vc_self = 1; vc_env.clk_hi_s = 4000000000LL; bt::get_id(); TH t; int e = errc([&] { misuse(pick6(), t); }); vc_assert(e == EINVAL, "C11.joining_a_non_joinable_thread_is_reported"); vc_assert(vc_env.njoined + vc_env.ndetached + vc_env.waits == 0 && !t.joinable(), "C11.misuse_changes_nothing"); t.detach(); vc_assert(vc_env.ndetached == 0 && !t.joinable(), "C11.misuse_changes_nothing"); vc_cover("end"); }
ENTRY(join_self) { vc_self = 1; vc_env.clk_hi_s = 4000000000LL; TH t; t.thread_info = bd::get_or_make_current_thread_data()->shared_from_this(); t.thread_info->thread_handle = 1; int e = errc([&] { misuse(pick6(), t); }); vc_assert(e == EDEADLK, "C11.joining_oneself_is_reported"); vc_assert(vc_env.njoined + vc_env.ndetached + vc_env.waits == 0 && t.joinable(), "C11.misuse_changes_nothing"); t.thread_info.reset(); vc_cover("end"); }
// ---------------------------------------------------------------- handles
ENTRY(handles) { vc_self = 1; TH::id me = bt::get_id(); bd::thread_data_ptr p(new TD), q(new TD); p->thread_handle = vc_range("handle", 2, 100000); q->thread_handle = vc_range("handle", 2, 100000); vc_assume(p->thread_handle != q->thread_handle); bool fa = vc_choose("a"), fb = vc_choose("b"); TH a, b; if (fa) a.thread_info = p; if (fb) b.thread_info = q; TH::id ia = a.get_id(), ib = b.get_id(), no; vc_assert(a.joinable() == fa && (ia != no) == fa && b.joinable() == fb, "C11.joinable_iff_it_has_a_thread"); vc_assert((ia == ib) == (!fa && !fb) && ia != me && ib != me, "C11.ids_equal_iff_same_thread"); vc_assert(ia == a.get_id() && !(ia != a.get_id()), "C11.ids_equal_iff_same_thread"); vc_assert((ia < ib) + (ib < ia) + (ia == ib) == 1 && (ia <= ib) == !(ib < ia) && (ia > ib) == (ib < ia) && (ia >= ib) == !(ia < ib), "C11.ids_are_totally_ordered"); vc_assert(me == bt::get_id(), "C11.ids_equal_iff_same_thread");
  if (vc_choose("swap")) { a.swap(b); vc_assert(a.get_id() == ib && b.get_id() == ia, "C11.ownership_moves"); } else { TH c(boost::move(a)); vc_assert(c.get_id() == ia && !a.joinable() && a.get_id() == no, "C11.ownership_moves"); c.thread_info.reset(); } a.thread_info.reset(); b.thread_info.reset(); vc_assert(vc_env.njoined + vc_env.ndetached == 0, "C11.handles_do_not_join"); vc_cover("end"); }
// ---------------------------------------------------------------- schedules: real threads as coroutines, pthread_join blocks until the thread has ended
static pthread_mutex_t life[8]; static int pmap[8]; static bool finished; static int njoin, nerr; static TH *sh, *sh2; static bool mayd, intr;
static void wrapper(void* p) { int i = (int)(long)p; body(bodyarg); VM(&life[i])->owner = 0; }
static int sc_create(void* (*f)(void*), void* a) { body = f; bodyarg = a; int id = vc_thread(wrapper, (void*)(long)(vc_sched.n + 1)); pmap[vc_env.ncreated] = id; pthread_mutex_init(&life[id], 0); VM(&life[id])->owner = id; return 0; }
static void sc_join(int t) { vc_assert(t - 100 >= 1 && t - 100 <= vc_env.ncreated, "C11.joins_its_thread"); njoin++; int id = pmap[t - 100]; int me = vc_self; while (VM(&life[id])->owner) { vc_sched.t[me].st = VT_MUTEX; vc_sched.t[me].m = &life[id]; vc_self = 0; vc_co_switch(0); } vc_assert(finished, "C11.join_after_the_function"); }
static void slow() { calls++; vc_yield_point(); finished = true; } static bool started;
static void owner(void* p) { long k = (long)p; sh = new TH(slow); started = true; if (k == 1) { sh->join(); vc_assert(finished && !sh->joinable(), "C11.returns_only_after_the_function_finished"); } else if (k == 2) { sh->detach(); vc_assert(!sh->joinable(), "C11.detached_is_not_joinable"); } else if (k == 3) { delete sh; } else if (k == 4) { TH t(boost::move(*sh)); t.join(); vc_assert(finished && !t.joinable() && !sh->joinable(), "C11.returns_only_after_the_function_finished"); } }
static void joiner(void* p) { if (!sh2) return; TH& t = *sh2; if (!t.joinable()) return; try { if (p) { bool r = t.try_join_until(Mono::time_point(bc::nanoseconds(9000000000000LL))); vc_assert(r, "C11.gives_up_only_after_the_deadline"); } else t.join(); vc_assert(finished, "C11.returns_only_after_the_function_finished"); vc_assert(!t.joinable(), "C11.join_makes_it_not_joinable"); } catch (boost::thread_resource_error&) { nerr++; vc_assert(finished || mayd, "C11.not_joinable_only_when_joined"); } catch (boost::thread_interrupted&) { vc_assert(t.joinable() && njoin == 0, "C11.interrupted_join_leaves_it_joinable"); intr = true; } }
static void sc(int spurious) { vc_env.clk_fixed = 1; vc_env.clk[0] = vc_env.clk[1] = 1000000000LL; vc_env.create_hook = sc_create; vc_env.join_hook = sc_join; vc_sched_start(); vc_sched.preempt = -1; vc_sched.lazy = 1; vc_sched.spurious = spurious; }
static void scend(int joined) { vc_run(); for (int i = 1; i <= vc_sched.n; i++) vc_assert(vc_done(i), "C11.joiners_are_woken"); vc_assert(calls == 1 && finished, "C11.runs_exactly_once_on_the_new_thread"); if (joined >= 0) vc_assert(njoin == joined && vc_env.ndetached == 1 - joined, "C11.joined_exactly_once"); vc_cover("end"); }
ENTRY(sched_join) { sc(2); vc_thread(owner, (void*)1); scend(1); } ENTRY(sched_detach) { sc(1); vc_thread(owner, (void*)2); scend(0); } ENTRY(sched_destroy) { sc(1); vc_thread(owner, (void*)3); scend(0); } ENTRY(sched_move) { sc(1); vc_thread(owner, (void*)4); scend(1); }
static void prestart() { vc_self = 7; sh2 = new TH(slow); vc_self = 0; }
ENTRY(sched_two_joiners) { sc(1); prestart(); vc_thread(joiner, 0); vc_thread(joiner, 0); scend(1); } ENTRY(sched_timed_and_untimed_joiner) { sc(1); prestart(); vc_thread(joiner, 0); vc_thread(joiner, (void*)1); scend(1); } ENTRY(t_sched_three_joiners) { sc(0); prestart(); vc_thread(joiner, 0); vc_thread(joiner, 0); vc_thread(joiner, 0); scend(1); }
static void detacher(void*) { sh2->detach(); } ENTRY(sched_join_and_detach) { sc(1); mayd = true; prestart(); vc_thread(joiner, 0); vc_thread(detacher, 0); vc_run(); for (int i = 1; i <= vc_sched.n; i++) vc_assert(vc_done(i), "C11.joiners_are_woken"); vc_assert(njoin + vc_env.ndetached == 1, "C11.joined_exactly_once"); vc_cover("end"); }
static void victim(void* p) { bd::get_or_make_current_thread_data()->interrupt_enabled = true; joiner(p); } static void killer(void*) { bd::thread_data_base* v = (bd::thread_data_base*)vc_tss_get(2, 0); if (v) { TH* k = new TH; k->thread_info = v->shared_from_this(); k->interrupt(); k->thread_info.reset(); } }
ENTRY(sched_interrupted_joiner) { sc(0); prestart(); vc_thread(victim, 0); vc_thread(killer, 0); vc_run(); for (int i = 1; i <= vc_sched.n; i++) vc_assert(vc_done(i), "C11.joiners_are_woken"); vc_assert(njoin == !intr && sh2->joinable() == intr, "C11.joined_exactly_once"); if (intr) vc_cover("interrupted"); vc_cover("end"); }
