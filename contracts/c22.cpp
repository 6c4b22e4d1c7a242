// C22: thread_group, scoped threads and guards, testable_mutex, the number parser.
#include "vc_boost.h"
#include <boost/thread/thread.hpp>
#include <boost/thread/scoped_thread.hpp>
#include <boost/thread/thread_guard.hpp>
#include <boost/thread/testable_mutex.hpp>
#include <boost/thread/mutex.hpp>
#include <boost/thread/pthread/thread_data.hpp>
#include <boost/thread/detail/string_to_unsigned.hpp>
namespace bc = boost::chrono; namespace bd = boost::detail; namespace bt = boost::this_thread; typedef boost::thread TH;
namespace boost { namespace detail { thread_data_base* get_or_make_current_thread_data(); } }
struct TD : bd::thread_data_base { void run() {} ~TD() {} };
static bd::thread_data_ptr mkrec(int h, bool done) { bd::thread_data_ptr p(new TD); p->thread_handle = h; p->done = done; return p; }
static int joined_[4], detached_[4]; static void jh(int h) { vc_assert(h >= 107 && h < 111, "C22.joins_the_thread_it_holds"); joined_[h - 107]++; vc_assert(!bt::interruption_enabled() || !vc_env.dl_on, "C22.not_interrupted_while_joining"); } static void dh(int h) { vc_assert(h >= 107 && h < 111, "C22.detaches_the_thread_it_holds"); detached_[h - 107]++; }
static bd::thread_data_base* me; static bool en, rq; static void self1() { vc_self = 1; me = bd::get_or_make_current_thread_data(); en = vc_choose("interruption_enabled"); rq = vc_choose("interruption_requested"); me->interrupt_enabled = en; me->interrupt_requested = rq; vc_env.join_hook = jh; vc_env.detach_hook = dh; }
static void self0() { vc_assert(me->interrupt_enabled == en && me->interrupt_requested == rq, "C22.interruption_state_restored"); }
// ---------------------------------------------------------------- scoped threads and guards with the library's actions; thread 0 held, thread 1 held by another wrapper
enum { JOIN, DETACH, DETACH_IF, INT_JOIN }; template <int A> struct Act; template <> struct Act<JOIN> { typedef boost::join_if_joinable T; }; template <> struct Act<DETACH> { typedef boost::detach T; }; template <> struct Act<DETACH_IF> { typedef boost::detach_if_joinable T; }; template <> struct Act<INT_JOIN> { typedef boost::interrupt_and_join_if_joinable T; };
static bd::thread_data_ptr r0, r1; static TH mk(bd::thread_data_ptr r) { TH t; t.thread_info = r; return boost::move(t); }
static void acted(int i, int A, bool yes) { bool j = A == JOIN || A == INT_JOIN; vc_assert(joined_[i] == (yes && j) && detached_[i] == (yes && !j), yes ? "C22.action_applied_once_on_destruction" : "C22.not_applied_to_a_thread_moved_away"); vc_assert((i ? r1 : r0)->interrupt_requested == (yes && A == INT_JOIN), "C22.action_applied_once_on_destruction"); }
template <int A> static void scoped() { self1(); r0 = mkrec(107, true); r1 = mkrec(108, true); typedef boost::scoped_thread<typename Act<A>::T> ST; bool f0 = vc_choose("holds_a_thread"), f1 = vc_choose("other_holds_a_thread"); vc_env.dl_on = 1; 
  { ST o(f1 ? mk(r1) : TH()); { ST s(f0 ? mk(r0) : TH()); vc_assert(s.joinable() == f0 && (s.get_id() == TH::id()) == !f0, "C22.forwards_to_the_thread"); bool h0 = f0, h1 = false, moved = false;
      if (vc_choose("moved_from")) { ST t(boost::move(s)); vc_assert(!s.joinable() && t.joinable() == f0, "C22.moves"); acted(0, A, false); if (vc_choose("moved_back_by_swap")) { t.swap(s); vc_assert(s.joinable() == f0 && !t.joinable(), "C22.moves"); } else { moved = true; h0 = false; } }
      else if (vc_choose("assigned")) { vc_env.dl_on = 0; if (en && rq) { en = rq = false; me->interrupt_enabled = me->interrupt_requested = false; } s = boost::move(o); vc_env.dl_on = 1; vc_assert(!o.joinable() && s.joinable() == f1, "C22.moves"); acted(0, A, f0); acted(1, A, false); h0 = false; h1 = f1; }
      else if (vc_choose("swapped")) { swap(s, o); h0 = false; h1 = f1; } else if (f0 && vc_choose("joined_before")) { vc_env.dl_on = 0; if (en && rq) { en = rq = false; me->interrupt_enabled = me->interrupt_requested = false; } s.join(); vc_env.dl_on = 1; joined_[0] = 0; h0 = f0 = false; }
      if (moved) acted(0, A, f0); else if (h0) acted(0, A, false); if (h1) acted(1, A, false); }
    (void)0; }
  acted(0, A, f0); acted(1, A, f1); self0(); vc_cover("end"); }
ENTRY(scoped_join) { scoped<JOIN>(); } ENTRY(scoped_detach) { scoped<DETACH>(); } ENTRY(scoped_detach_if_joinable) { scoped<DETACH_IF>(); } ENTRY(scoped_interrupt_and_join) { scoped<INT_JOIN>(); }
template <int A> static void guarded() { self1(); r0 = mkrec(107, true); r1 = mkrec(108, true); bool f0 = vc_choose("joinable"), strict = vc_choose("strict"); vc_env.dl_on = 1; bool stays = false; { TH t(f0 ? mk(r0) : TH()), u; 
    if (strict) { boost::strict_scoped_thread<typename Act<A>::T> g(boost::move(t)); vc_assert(!t.joinable(), "C22.moves"); acted(0, A, false); } else { boost::thread_guard<typename Act<A>::T> g(t); acted(0, A, false); if (vc_choose("moved_away")) { u = boost::move(t); stays = true; } } acted(0, A, f0 && !stays); vc_assert(!t.joinable(), "C22.action_applied_once_on_destruction"); if (stays) { vc_assert(u.joinable() == f0, "C22.not_applied_to_a_thread_moved_away"); u.thread_info.reset(); } } acted(0, A, f0 && !stays); self0(); vc_cover("end"); }
ENTRY(guard_join) { guarded<JOIN>(); } ENTRY(guard_detach) { guarded<DETACH>(); } ENTRY(guard_detach_if_joinable) { guarded<DETACH_IF>(); } ENTRY(guard_interrupt_and_join) { guarded<INT_JOIN>(); }
// user-defined actions: called exactly once per wrapper with the thread the wrapper holds; construction from a callable runs it
static int ncalls; static TH::id last; static bool lastj; struct Count { void operator()(TH& t) { ncalls++; last = t.get_id(); lastj = t.joinable(); vc_assert(!bt::interruption_enabled(), "C22.not_interrupted_during_the_action"); if (lastj) t.thread_info.reset(); } };
ENTRY(custom_action) { self1(); r0 = mkrec(107, true); int k = vc_choose("guard") ? 2 : vc_choose("strict"); bool f0 = vc_choose("joinable"); TH t(f0 ? mk(r0) : TH()); TH::id id = t.get_id(); if (k == 0) { boost::scoped_thread<Count> s(boost::move(t)); vc_assert(ncalls == 0, "C22.only_on_destruction"); } else if (k == 1) { boost::strict_scoped_thread<Count> s(boost::move(t)); vc_assert(ncalls == 0, "C22.only_on_destruction"); } else { boost::thread_guard<Count> s(t); vc_assert(ncalls == 0, "C22.only_on_destruction"); } vc_assert(ncalls == 1 && last == id && lastj == f0, "C22.action_applied_once_on_destruction"); self0(); vc_cover("end"); }
static int ran, ra; static void* (*pb)(void*); static void* pa; static int oc(void* (*f)(void*), void* a) { pb = f; pa = a; vc_self = 2; f(a); vc_self = 1; return 0; } static void fn(int a) { ran++; ra = a; } static void jc(int h) { vc_assert(h == 101 && ran == 1, "C22.joins_the_thread_it_holds"); joined_[0]++; }
ENTRY(scoped_from_callable) { vc_self = 1; bt::get_id(); vc_env.create_hook = oc; vc_env.join_hook = jc; int a = vc_i32("arg"); if (vc_choose("strict")) { boost::strict_scoped_thread<> s(fn, a); } else { boost::scoped_thread<> s(fn, a); vc_assert(s.joinable() && joined_[0] == 0, "C22.only_on_destruction"); if (vc_choose("join")) { s.join(); vc_assert(!s.joinable(), "C22.forwards_to_the_thread"); } else if (vc_choose("detach")) { s.detach(); vc_assert(vc_env.ndetached == 1, "C22.forwards_to_the_thread"); joined_[0]++; } } vc_assert(ran == 1 && ra == a && joined_[0] == 1, "C22.action_applied_once_on_destruction"); vc_cover("end"); }
// ---------------------------------------------------------------- thread_group (groups of up to three threads, every subset, every mix of joinable and finished)
static boost::thread_group* g; static TH* t[4]; static bd::thread_data_ptr rec_[4]; static bool in[4], jb[4]; static int n, held, excl; 
static void gacq(void*) {} static void grel(void*) { held = g->m.state.exclusive || g->m.state.shared_count > 0; excl |= g->m.state.exclusive; }
static void group(bool selfin = false) { self1(); g = new boost::thread_group; n = 0; for (int i = 0; i < 4; i++) { in[i] = i < 3 && vc_choose("member"); jb[i] = vc_choose("joinable"); t[i] = new TH; rec_[i] = mkrec(107 + i, true); if (jb[i]) t[i]->thread_info = rec_[i]; if (in[i]) { g->threads.push_back(t[i]); n++; } } if (selfin) { TH* s = new TH; s->thread_info = me->shared_from_this(); g->threads.push_back(s); n++; me->thread_handle = 1; } held = excl = 0; vc_monitor(g->m.state_change.native_handle(), gacq, grel, 0); vc_guard_add(&g->threads, sizeof g->threads, &held, "C22.group_accessed_under_its_lock"); }
static int idn(int i) { return jb[i] ? i : -1; } static void gend(bool mutated) { vc_guard_clear(); vc_assert(!held && !vc_held(g->m.state_change.native_handle()), "C22.group_lock_released"); vc_assert(excl || !mutated, "C22.group_changed_only_under_the_exclusive_lock"); int k = 0; for (std::list<TH*>::iterator i = g->threads.begin(); i != g->threads.end(); ++i) k++; vc_assert((int)g->threads.size() == n && k == n, "C22.size_is_exact"); for (int i = 0; i < 4; i++) { int c = 0; for (std::list<TH*>::iterator j = g->threads.begin(); j != g->threads.end(); ++j) if (*j == t[i]) c++; vc_assert(c == in[i], "C22.membership_is_exact"); } }
static void untouched() { for (int i = 0; i < 4; i++) { vc_assert(joined_[i] == 0 && detached_[i] == 0 && vc_alive(t[i]) && !rec_[i]->interrupt_requested, "C22.other_threads_untouched"); } self0(); vc_cover("end"); }
ENTRY(b_group_queries) { bool sin = vc_choose("this_thread_is_a_member"); group(sin); vc_assert((int)g->size() == n, "C22.size_is_exact"); vc_assert(g->is_this_thread_in() == sin, "C22.membership_is_exact"); int i = vc_choose("p") ? 3 : vc_choose("p1") ? 1 : 0; bool same = false; for (int j = 0; j < 3; j++) if (in[j] && idn(j) == idn(i)) same = true; vc_assert(g->is_thread_in(t[i]) == same && !g->is_thread_in(0), "C22.membership_is_exact"); gend(false); untouched(); }
ENTRY(b_group_add) { group(); bool null = vc_choose("null"); int i = vc_choose("p") ? 3 : 1; bool same = false; for (int j = 0; j < 3; j++) if (in[j] && idn(j) == idn(i)) same = true; bool err = false; try { g->add_thread(null ? 0 : t[i]); } catch (boost::thread_resource_error& e) { err = e.code().value() == EDEADLK; } vc_assert(err == (same && !null), "C22.duplicates_are_refused"); bool done = !null && !same; if (done) { in[i] = true; n++; } gend(done); untouched(); }
ENTRY(b_group_remove) { group(); int i = vc_choose("null") ? -1 : vc_choose("p") ? 3 : vc_choose("p2") ? 2 : 1; g->remove_thread(i < 0 ? 0 : t[i]); bool was = i >= 0 && in[i]; if (was) { in[i] = false; n--; } gend(was); untouched(); }
ENTRY(b_group_join_all) { bool sin = vc_choose("this_thread_is_a_member"); group(sin); bool err = false, intr = false; try { g->join_all(); } catch (boost::thread_resource_error& e) { err = e.code().value() == EDEADLK; } catch (boost::thread_interrupted&) { intr = true; } vc_assert(err == sin, "C22.joining_oneself_is_refused"); bool any = false; for (int i = 0; i < 3; i++) any |= in[i] && jb[i]; vc_assert(!intr || (en && rq && any), "C22.join_all_joins_every_member"); if (intr) rq = false; for (int i = 0; i < 4; i++) { bool w = !err && !intr && in[i] && jb[i]; vc_assert(joined_[i] == w && (t[i]->joinable() == (jb[i] && !w)), "C22.join_all_joins_every_member"); joined_[i] = 0; } gend(false); untouched(); }
ENTRY(b_group_interrupt_all) { group(); g->interrupt_all(); for (int i = 0; i < 4; i++) { vc_assert(rec_[i]->interrupt_requested == (in[i] && jb[i]), "C22.interrupts_every_member"); rec_[i]->interrupt_requested = false; } gend(false); untouched(); }
ENTRY(b_group_destroy) { group(); vc_guard_clear(); delete g; for (int i = 0; i < 4; i++) { vc_assert(vc_alive(t[i]) == !in[i], "C22.destruction_deletes_every_member"); vc_assert(detached_[i] == (in[i] && jb[i]) && joined_[i] == 0, "C22.destruction_deletes_every_member"); } self0(); vc_cover("end"); }
static void gf() { vc_assert(vc_self == 2, "C22.runs_on_a_new_thread"); ran++; }
ENTRY(b_group_create) { group(); vc_env.create_hook = oc; if (vc_choose("creation_fails")) vc_env.create_err = EAGAIN; TH* r = 0; try { r = g->create_thread(gf); } catch (boost::thread_resource_error&) {} vc_guard_clear(); if (!r) vc_assert(vc_env.create_err && ran == 0, "C22.failed_creation_changes_nothing"); else { vc_assert(ran == 1 && r->joinable() && g->threads.back() == r, "C22.created_thread_is_a_member"); int k = n + 1; vc_assert((int)g->size() == k && g->is_thread_in(r), "C22.created_thread_is_a_member"); g->threads.pop_back(); } gend(r != 0); untouched(); }
// ---------------------------------------------------------------- testable_mutex over any lockable (stub: owner 0 free, 1 this thread, 2 another)
struct LK { int o; bool ok; int calls; boost::testable_mutex<LK>* tm; LK() : o(0), ok(false), calls(0), tm(0) {} void pre() { vc_assert(o != 1, "C22.testable_never_locks_twice"); if (tm) vc_assert(!tm->is_locked_by_this_thread(), "C22.reports_locked_exactly_while_owned"); calls++; } void got(bool r) { if (r) { if (tm) { if (o == 2) tm->id_ = TH::id(); } o = 1; } } void lock() { pre(); got(true); } bool tr(const char*) { pre(); bool r = o == 0 || vc_choose("released_by_other"); r = r && vc_choose("acquires"); got(r); return r; } bool try_lock() { return tr(""); } template <class D> bool try_lock_for(const D& d) { dn = d.count(); return tr(""); } template <class T> bool try_lock_until(const T& t) { dn = t.time_since_epoch().count(); return tr(""); } int64_t dn; void unlock() { vc_assert(o == 1, "C22.unlocks_only_when_owned"); vc_assert(tm->get_id() == TH::id(), "C22.id_cleared_before_the_lock_is_released"); calls++; o = 0; } };
ENTRY(testable_mutex) { vc_self = 1; TH::id self = bt::get_id(); boost::testable_mutex<LK> m; m.mtx_.tm = &m; vc_self = 2; TH::id other = bt::get_id(); vc_assert(!m.is_locked() && !m.is_locked_by_this_thread() && m.get_id() == TH::id(), "C22.starts_unlocked"); bool oth = vc_choose("owned_by_another"); if (oth) { m.mtx_.o = 2; m.id_ = other; } vc_self = 1; vc_assert(m.is_locked() == oth && !m.is_locked_by_this_thread(), "C22.reports_locked_exactly_while_owned"); int64_t d = vc_i64("time"); m.mtx_.calls = 0; bool r = true, t = false; 
  if (vc_choose("lock")) m.lock(); else if (vc_choose("try_lock")) r = m.try_lock(); else { t = true; if (vc_choose("for")) r = m.try_lock_for(bc::nanoseconds(d)); else r = m.try_lock_until(bc::steady_clock::time_point(bc::nanoseconds(d))); } vc_assert(!t || m.mtx_.dn == d, "C22.time_passed_on"); vc_assert(m.mtx_.calls == 1 && r == (m.mtx_.o == 1), "C22.result_of_the_mutex_passed_on"); vc_assert(m.is_locked_by_this_thread() == r && (m.get_id() == self) == r, "C22.reports_locked_exactly_while_owned"); if (r) vc_assert(m.is_locked(), "C22.reports_locked_exactly_while_owned"); vc_self = 2; vc_assert(m.is_locked_by_this_thread() == (!r && m.mtx_.o == 2), "C22.reports_locked_exactly_while_owned"); vc_self = 1; if (r) { m.unlock(); vc_assert(!m.is_locked() && !m.is_locked_by_this_thread() && m.mtx_.o == 0, "C22.reports_locked_exactly_while_owned"); } vc_cover("end"); }
// ---------------------------------------------------------------- the number parser against the mathematical value, any bytes, bounded length
static void parse(int len) { char b[32]; std::string s; bool digits = true, big = false; unsigned v = 0; for (int i = 0; i < len; i++) { b[i] = (char)vc_nondet_u8("char"); vc_assume(b[i] != 0); } b[len] = 0; s.assign(b, len); unsigned r = 77; bool ok = boost::thread_detail::string_to_unsigned(s, r);
  for (int i = 0; i < len; i++) { unsigned char c = b[i]; digits = digits & (c >= '0') & (c <= '9'); if (!vc_fork(digits)) break; uint64_t w = (uint64_t)v * 10 + (unsigned)(c - '0'); big = big | (w >> 32) != 0; v = v * 10 + (unsigned)(c - '0'); } vc_assert(ok == (digits & !big), "C22.accepts_exactly_the_unsigned_integers"); if (ok) { vc_assert(r == v, "C22.parsed_value_is_exact"); vc_cover("accepted"); } vc_cover("end"); }
ENTRY(t_parse_15) { parse(15); }
ENTRY(b_parse_empty) { std::string s; unsigned v = 5; vc_assert(!boost::thread_detail::string_to_unsigned(s, v), "C22.accepts_exactly_the_unsigned_integers"); vc_cover("end"); }
ENTRY(b_parse_1) { parse(1); } ENTRY(b_parse_3) { parse(3); } ENTRY(b_parse_9) { parse(9); } ENTRY(b_parse_10) { parse(10); } ENTRY(b_parse_11) { parse(11); } ENTRY(b_parse_12) { parse(12); }
