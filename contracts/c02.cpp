#define BOOST_THREAD_PROVIDES_SHARED_MUTEX_UPWARDS_CONVERSIONS
#include "vc_boost.h"
#include <boost/thread/pthread/shared_mutex.hpp>
#include <boost/thread/mutex.hpp>
#include <boost/thread/recursive_mutex.hpp>
#include <boost/thread/condition_variable.hpp>
#include <boost/thread/thread.hpp>
#include <boost/thread/latch.hpp>
#include <boost/thread/xtime.hpp>
namespace bc = boost::chrono; namespace pt = boost::posix_time; namespace bd = boost::detail;
typedef bc::steady_clock Mono; typedef bc::system_clock Sys;
static const int64_t I64MIN_ = INT64_MIN + 2000000000LL, I64MAX_ = INT64_MAX - 2000000000LL;
// ------------------------------------------------------------- conversions: exact, normalised, rounded as documented
static bool norm(timespec const& t) { return t.tv_nsec >= 0 && t.tv_nsec < 1000000000L; }
ENTRY(conv_timespec) { int64_t n = vc_range64("ns", I64MIN_, I64MAX_); timespec t = bd::ns_to_timespec(n); vc_assert(norm(t), "C02.timespec_normalised"); vc_assert((int64_t)t.tv_sec * 1000000000LL + t.tv_nsec == n, "C02.ns_to_timespec_exact"); vc_assert(bd::timespec_to_ns(t) == n, "C02.timespec_to_ns_exact"); vc_cover("end"); }
ENTRY(conv_timespec_to_ns) { timespec t; int64_t s = vc_range64("sec", -9000000000LL, 9000000000LL), n = vc_range64("nsec", 0, 999999999LL); t.tv_sec = s; t.tv_nsec = n; vc_assert(bd::timespec_to_ns(t) == s * 1000000000LL + n, "C02.timespec_to_ns_exact"); bd::platform_duration d(t); vc_assert(d.getNs() == s * 1000000000LL + n, "C02.duration_from_timespec_exact"); vc_assert(d.getTs().tv_sec == s && d.getTs().tv_nsec == n, "C02.duration_from_timespec_exact"); vc_cover("end"); }
ENTRY(conv_time_duration) { int64_t us = vc_range64("us", -9000000000000000LL, 9000000000000000LL); pt::time_duration td = pt::microseconds(us); bd::platform_duration d(td); vc_assert(d.getNs() == us * 1000, "C02.duration_from_time_duration_exact"); vc_assert(norm(d.getTs()), "C02.timespec_normalised"); vc_cover("end"); }
ENTRY(conv_ptime) { int64_t us = vc_range64("us", -2000000000000000LL, 9000000000000000LL); bd::real_platform_timepoint p(vc_ptime_us(us)); vc_assert(p.getNs() == us * 1000, "C02.timepoint_from_ptime_exact"); vc_assert(norm(p.getTs()), "C02.timespec_normalised"); vc_cover("end"); }
template <class D> static void conv_chrono(int64_t lo, int64_t hi, int64_t num, int64_t den) {
  int64_t c = vc_range64("count", lo, hi); bd::platform_duration d((D(c))); int64_t ns = d.getNs(); vc_assert(norm(d.getTs()), "C02.timespec_normalised");
  if (den == 1) vc_assert(ns == c * num, "C02.duration_from_chrono_exact"); else vc_assert(ns * den >= c * num && (ns - 1) * den < c * num, "C02.duration_from_chrono_rounds_up");
  vc_cover("end"); }
ENTRY(conv_chrono_ns) { conv_chrono<bc::nanoseconds>(I64MIN_, I64MAX_, 1, 1); } ENTRY(conv_chrono_us) { conv_chrono<bc::microseconds>(-9000000000000000LL, 9000000000000000LL, 1000, 1); } ENTRY(conv_chrono_ms) { conv_chrono<bc::milliseconds>(-9000000000000LL, 9000000000000LL, 1000000, 1); }
ENTRY(conv_chrono_s) { conv_chrono<bc::seconds>(-9000000000LL, 9000000000LL, 1000000000, 1); } ENTRY(conv_chrono_min) { conv_chrono<bc::minutes>(-150000000LL, 150000000LL, 60000000000LL, 1); } ENTRY(conv_chrono_h) { conv_chrono<bc::hours>(-2500000LL, 2500000LL, 3600000000000LL, 1); }
ENTRY(conv_chrono_ps) { conv_chrono<bc::duration<int64_t, boost::pico> >(-9000000000000000000LL, 9000000000000000000LL, 1, 1000); } ENTRY(conv_chrono_third) { conv_chrono<bc::duration<int64_t, boost::ratio<1, 3> > >(-9000000LL, 9000000LL, 1000000000, 3); }
template <class P> static void conv_tp(int64_t n, P const& p) { vc_assert(p.getNs() == n, "C02.timepoint_exact"); vc_assert(norm(p.getTs()), "C02.timespec_normalised"); }
ENTRY(conv_timepoints) { int64_t n = vc_range64("ns", I64MIN_, I64MAX_); conv_tp(n, bd::mono_platform_timepoint(n)); conv_tp(n, bd::real_platform_timepoint(n)); conv_tp(n, bd::mono_platform_timepoint(Mono::time_point(bc::nanoseconds(n)))); conv_tp(n, bd::real_platform_timepoint(Sys::time_point(bc::nanoseconds(n)))); vc_cover("end"); }
ENTRY(conv_clocks) { bd::mono_platform_timepoint m = bd::mono_platform_clock::now(); vc_assert(m.getNs() == vc_env.clk[1], "C02.now_exact"); bd::real_platform_timepoint r = bd::real_platform_clock::now(); vc_assert(r.getNs() == vc_env.clk[0], "C02.now_exact"); bd::internal_platform_timepoint i = bd::internal_platform_clock::now(); (void)i; vc_assert(norm(m.getTs()) && norm(r.getTs()), "C02.timespec_normalised"); vc_cover("end"); }
ENTRY(conv_getms) { int64_t n = vc_range64("ns", I64MIN_, I64MAX_); int64_t ms = bd::platform_duration(n).getMs(); if (n >= 0) vc_assert(ms * 1000000 >= n && (ms - 1) * 1000000 < n, "C02.getMs_rounds_away_from_zero"); else vc_assert(ms * 1000000 <= n && (ms + 1) * 1000000 > n, "C02.getMs_rounds_away_from_zero"); vc_cover("end"); }
ENTRY(conv_platform_ms) { int64_t m = vc_range64("ms", -9000000000000LL, 9000000000000LL); vc_assert(bd::platform_milliseconds(m).getNs() == m * 1000000, "C02.platform_milliseconds_exact"); vc_cover("end"); }
ENTRY(conv_arith) { int64_t a = vc_range64("a", -4000000000000000000LL, 4000000000000000000LL), b = vc_range64("b", -4000000000000000000LL, 4000000000000000000LL); bd::platform_duration da(a), db(b); bd::mono_platform_timepoint ma(a), mb(b); bd::real_platform_timepoint ra(a), rb(b);
  switch (vc_choose("pick") ? 0 : vc_choose("pick") ? 1 : vc_choose("pick") ? 2 : vc_choose("pick") ? 3 : 4) {
  case 0: vc_assert((ma + db).getNs() == a + b && (db + ma).getNs() == a + b, "C02.arithmetic_exact"); break; case 1: vc_assert((ra + db).getNs() == a + b && (db + ra).getNs() == a + b, "C02.arithmetic_exact"); break;
  case 2: vc_assert((ma - mb).getNs() == a - b, "C02.arithmetic_exact"); break; case 3: vc_assert((ra - rb).getNs() == a - b, "C02.arithmetic_exact"); break;
  case 4: vc_assert((da < db) == (a < b) && (da <= db) == (a <= b) && (da > db) == (a > b) && (da >= db) == (a >= b) && (da == db) == (a == b) && (da != db) == (a != b), "C02.order_matches_value"); vc_assert((ma < mb) == (a < b) && (ma <= mb) == (a <= b) && (ma > mb) == (a > b) && (ma >= mb) == (a >= b) && (ma == mb) == (a == b) && (ma != mb) == (a != b), "C02.order_matches_value"); vc_assert((ra < rb) == (a < b) && (ra <= rb) == (a <= b) && (ra > rb) == (a > b) && (ra >= rb) == (a >= b) && (ra == rb) == (a == b) && (ra != rb) == (a != b), "C02.order_matches_value"); }
  vc_cover("end"); }
ENTRY(conv_get_xtime) { int64_t us = vc_range64("us", -2000000000000000LL, 9000000000000000LL); boost::xtime x = boost::get_xtime(vc_ptime_us(us)); vc_assert(x.nsec >= 0 && x.nsec < 1000000000, "C02.xtime_normalised"); vc_assert((int64_t)x.sec * 1000000 + x.nsec / 1000 == us && x.nsec % 1000 == 0, "C02.get_xtime_exact"); vc_cover("end"); }
ENTRY(conv_xtime_to_time) { int64_t s = vc_range64("sec", -2000000000LL, 9000000000LL), n = vc_range64("nsec", 0, 999999999LL); boost::xtime x; x.sec = s; x.nsec = (int)n; boost::system_time t = x; int64_t us = (t - vc_ptime_us(0)).total_microseconds(); vc_assert(us == s * 1000000 + (n + 500) / 1000, "C02.xtime_to_system_time_rounds_to_nearest"); vc_cover("end"); }
ENTRY(conv_xtime_cmp) { boost::xtime a, b; a.sec = vc_range64("s1", -4000000000000000000LL, 4000000000000000000LL); b.sec = vc_range64("s2", -4000000000000000000LL, 4000000000000000000LL); int64_t na = vc_range64("n1", 0, 999999999), nb = vc_range64("n2", 0, 999999999); a.nsec = na; b.nsec = nb; int c = boost::xtime_cmp(a, b); bool lt = a.sec < b.sec || (a.sec == b.sec && na < nb), eq = a.sec == b.sec && na == nb; vc_assert((c < 0) == lt && (c == 0) == eq, "C02.xtime_cmp_orders_by_time"); vc_cover("end"); }
// ------------------------------------------------------------- timed operations
static const int64_t HI = 4000000000000000000LL; static int64_t start; static bool began;
static int on_wait(pthread_cond_t* c, bool timed);
static timespec last_ts; static void on_timed(pthread_cond_t*, const timespec* ts) { last_ts = *ts; }
// contract of pthread_cond_timedwait: ETIMEDOUT only once the condition's clock has reached the deadline
static int on_wait(pthread_cond_t* c, bool timed) { timespec last = last_ts; last_ts.tv_sec = last_ts.tv_nsec = 0; if (!timed || !vc_choose("etimedout")) return 0; int w = VCn(c)->clock == CLOCK_MONOTONIC; int64_t t = vc_clock_read(w); vc_assume(t >= (int64_t)last.tv_sec * 1000000000LL + last.tv_nsec); return ETIMEDOUT; }
static int64_t DL(const char* n) { return vc_range64(n, 0, HI); }
static void setup() { vc_env.clk_hi_s = 4000000000LL; vc_env.clock_jumps = 1; vc_env.wait_result = on_wait; vc_env.timed_hook = on_timed; }
static void setdl(int64_t d, int w) { vc_env.dl = d; vc_env.dlw = w; vc_env.dl_on = 1; vc_env.reached = 0; }
static Mono::time_point mono() { setdl(DL("deadline"), 1); return Mono::time_point(bc::nanoseconds(vc_env.dl)); }
static Sys::time_point sys() { setdl(DL("deadline"), 0); return Sys::time_point(bc::nanoseconds(vc_env.dl)); }
static pt::ptime abst() { int64_t us = vc_range64("deadline_us", 0, HI / 1000); setdl(us * 1000, 0); return vc_ptime_us(us); }
static void rel0(int64_t d) { timespec x; clock_gettime(CLOCK_MONOTONIC, &x); setdl(vc_env.clk[1] + d, 1); vc_env.reached = vc_fork(d <= 0); }
static bc::nanoseconds reld() { int64_t d = vc_range64("duration", -HI, HI); rel0(d); return bc::nanoseconds(d); }
static pt::time_duration relt() { int64_t us = vc_range64("duration_us", -HI / 1000, HI / 1000); rel0(us * 1000); return pt::microseconds(us); }
static void done(bool timed_out) { if (timed_out) { vc_assert(vc_env.reached, "C02.timeout_only_after_deadline"); vc_cover("timeout"); } else vc_cover("success"); vc_cover("end"); }
// the environment keeps the object in an arbitrary state: locked or not at every step
template <class M> static M* obj;
static void htm(void*) { obj<boost::timed_mutex>->is_locked = vc_nondet_bool("locked"); } static void hrm(void*) { auto* m = obj<boost::recursive_timed_mutex>; m->is_locked = vc_nondet_bool("locked"); m->owner = 77; m->count = 1; }
static void hsm(void*) { auto& t = obj<boost::shared_mutex>->state; t.shared_count = vc_range("shared", 0, 1000); t.exclusive = vc_nondet_bool("excl"); t.upgrade = vc_nondet_bool("upg"); t.exclusive_waiting_blocked = vc_nondet_bool("blk"); }
static void hS(void*) { hsm(0); auto& t = obj<boost::shared_mutex>->state; vc_assume(!t.exclusive && t.shared_count >= 1); } static void hU(void*) { hS(0); obj<boost::shared_mutex>->state.upgrade = true; }
#define TL(N, M, mtx, hook, name, expr) ENTRY(N##_##name) { setup(); auto* o = new M; obj<M> = o; M& m = *o; vc_monitor(mtx, hook, 0, 0); done(!(expr)); }
#define TLM(N, M, mtx, hook) TL(N, M, mtx, hook, try_lock_until_steady, m.try_lock_until(mono())) TL(N, M, mtx, hook, try_lock_until_system, m.try_lock_until(sys())) TL(N, M, mtx, hook, try_lock_for, m.try_lock_for(reld())) TL(N, M, mtx, hook, timed_lock_abs, m.timed_lock(abst())) TL(N, M, mtx, hook, timed_lock_rel, m.timed_lock(relt()))
TLM(timed, boost::timed_mutex, &o->m, htm) TLM(rectimed, boost::recursive_timed_mutex, &o->m, hrm) TLM(shared, boost::shared_mutex, o->state_change.native_handle(), hsm)
#define SM(hook, name, expr) TL(shared, boost::shared_mutex, o->state_change.native_handle(), hook, name, expr)
SM(hsm, try_lock_shared_until_steady, m.try_lock_shared_until(mono())) SM(hsm, try_lock_shared_until_system, m.try_lock_shared_until(sys())) SM(hsm, try_lock_shared_for, m.try_lock_shared_for(reld())) SM(hsm, timed_lock_shared_abs, m.timed_lock_shared(abst())) SM(hsm, timed_lock_shared_rel, m.timed_lock_shared(relt()))
SM(hsm, try_lock_upgrade_until_steady, m.try_lock_upgrade_until(mono())) SM(hsm, try_lock_upgrade_for, m.try_lock_upgrade_for(reld())) SM(hsm, timed_lock_upgrade_abs, m.timed_lock_upgrade(abst())) SM(hsm, timed_lock_upgrade_rel, m.timed_lock_upgrade(relt()))
SM(hU, up_to_x_until, m.try_unlock_upgrade_and_lock_until(mono())) SM(hU, up_to_x_for, m.try_unlock_upgrade_and_lock_for(reld())) SM(hS, sh_to_x_until, m.try_unlock_shared_and_lock_until(mono())) SM(hS, sh_to_x_for, m.try_unlock_shared_and_lock_for(reld())) SM(hS, sh_to_up_until, m.try_unlock_shared_and_lock_upgrade_until(mono())) SM(hS, sh_to_up_for, m.try_unlock_shared_and_lock_upgrade_for(reld()))
// condition variables
static bool predv; static void repred(pthread_cond_t*, pthread_mutex_t*) { predv = vc_choose("predicate"); } // the predicate changes only while the lock is released
struct Pred { bool operator()() const { return predv; } };
struct AnyLock { void lock() {} void unlock() {} };
#define CVW(N, name, expr) ENTRY(cv_##name) { setup(); vc_env.woken_hook = repred; repred(0, 0); boost::mutex mx; boost::condition_variable c; boost::unique_lock<boost::mutex> l(mx); done(!(expr)); l.unlock(); } ENTRY(cva_##name) { setup(); vc_env.woken_hook = repred; repred(0, 0); boost::condition_variable_any c; AnyLock l; done(!(expr)); }
CVW(0, wait_until_steady, c.wait_until(l, mono()) == boost::cv_status::no_timeout) CVW(0, wait_until_system, c.wait_until(l, sys()) == boost::cv_status::no_timeout) CVW(0, wait_for, c.wait_for(l, reld()) == boost::cv_status::no_timeout) CVW(0, timed_wait_abs, c.timed_wait(l, abst())) CVW(0, timed_wait_rel, c.timed_wait(l, relt()))
CVW(0, wait_until_steady_pred, c.wait_until(l, mono(), Pred())) CVW(0, wait_until_system_pred, c.wait_until(l, sys(), Pred())) CVW(0, wait_for_pred, c.wait_for(l, reld(), Pred())) CVW(0, timed_wait_abs_pred, c.timed_wait(l, abst(), Pred())) CVW(0, timed_wait_rel_pred, c.timed_wait(l, relt(), Pred()))
// sleeping
#define SL(name, expr) ENTRY(sleep_##name) { setup(); expr; done(true); }
SL(until_steady, boost::this_thread::sleep_until(mono())) SL(until_system, boost::this_thread::sleep_until(sys())) SL(for, boost::this_thread::sleep_for(reld())) SL(abs, boost::this_thread::sleep(abst())) SL(rel, boost::this_thread::sleep(relt()))
namespace np = boost::this_thread::no_interruption_point;
SL(np_until_steady, np::sleep_until(mono())) SL(np_until_system, np::sleep_until(sys())) SL(np_for, np::sleep_for(reld())) SL(np_abs, np::sleep(abst())) SL(np_rel, np::sleep(relt()))
// latch
static boost::latch* lt; static void hl(void*) { lt->count_ = vc_nondet_u64("count"); }
#define LT(name, expr) ENTRY(latch_##name) { setup(); lt = new boost::latch(1); vc_monitor(lt->mutex_.native_handle(), hl, 0, 0); done(!(expr)); }
LT(wait_until_steady, lt->wait_until(mono()) == boost::cv_status::no_timeout) LT(wait_until_system, lt->wait_until(sys()) == boost::cv_status::no_timeout) LT(wait_for, lt->wait_for(reld()) == boost::cv_status::no_timeout)
