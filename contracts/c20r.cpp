// C20 over the real container and the real heap algorithms: order for every choice of values (bounded in the number of elements) and schedules.
#include "vc_boost.h"
#include <boost/thread/concurrent_queues/sync_priority_queue.hpp>
#include <boost/thread/concurrent_queues/sync_timed_queue.hpp>
namespace bc = boost::chrono; typedef boost::queue_op_status st;
typedef boost::sync_priority_queue<long> PQ; typedef boost::sync_priority_queue<long, boost::csbl::vector<long>, std::greater<long> > PG; typedef boost::sync_timed_queue<long> TQ; typedef bc::steady_clock::time_point TP;
static void one() { vc_sched_start(); vc_self = 1; vc_env.clk_fixed = 1; vc_env.clk[0] = vc_env.clk[1] = 1000000; } // runs as an ordinary thread
template <class QT, bool G> static void order(int n) { one(); QT q; long v[4]; unsigned seen = 0; for (int i = 0; i < n; i++) { v[i] = vc_range64("value", -1000000, 1000000); if (i == 2) { long x; vc_assert(q.try_pull(x) == st::success, "C20.status"); vc_assert(x == (vc_fork((v[0] < v[1]) != G) ? v[1] : v[0]), "C20.order"); long r = x == v[1] ? v[0] : v[1]; v[0] = x == v[1] ? v[0] : v[1]; v[1] = r; q.push(x); v[1] = x; } q.push(v[i]); }
  vc_assert(q.size() == (size_t)n && !q.empty(), "C20.size_exact"); if (vc_choose("close")) q.close(); long last = 0; for (int i = 0; i < n; i++) { long x = q.pull(); if (i) vc_assert(G ? last <= x : last >= x, "C20.order"); last = x; bool hit = false; for (int j = 0; j < n && !hit; j++) if (!(seen >> j & 1) && vc_fork(v[j] == x)) { seen |= 1u << j; hit = true; } vc_assert(hit, "C20.each_element_once"); } vc_assert(q.empty() && q.size() == 0, "C20.size_exact"); vc_cover("end"); }
ENTRY(b_order2) { order<PQ, false>(2); } ENTRY(b_order3) { order<PQ, false>(3); } ENTRY(b_order4) { order<PQ, false>(4); } ENTRY(b_order4_greater) { order<PG, true>(4); }
ENTRY(b_order_timed) { one(); TQ q; int64_t d[3]; int n = 3; for (int i = 0; i < n; i++) { d[i] = vc_range64("due", 0, 2000000); q.push(i, TP(bc::nanoseconds(d[i]))); } bool cl = vc_choose("close"); if (cl) q.close(); unsigned seen = 0; int64_t last = -1; int k = 0;
  for (; k < n; k++) { long x = -1; st s = q.try_pull(x); if (s != st::success) { vc_assert(s == (cl ? st::closed : st::not_ready), "C20.status"); for (int j = 0; j < n; j++) if (!(seen >> j & 1)) vc_assert(d[j] > 1000000, "C20.due_element_is_delivered"); break; } vc_assert(x >= 0 && x < n && !(seen >> x & 1), "C20.each_element_once"); seen |= 1u << x; vc_assert(d[x] <= 1000000, "C20.never_early"); vc_assert(d[x] >= last, "C20.order"); last = d[x]; }
  vc_assert(q.size() == (size_t)(n - k), "C20.size_exact"); vc_cover("end"); }
// schedules
static PQ* p; static TQ* t; static int got[8], ngot, sent, nclosed; static int64_t NOW = 1000000, LATE = 900000000000LL; static int64_t due[64];
static void take(long v) { for (int i = 0; i < ngot; i++) vc_assert(got[i] != v, "C20.each_element_once"); got[ngot++] = v; }
static void pprod(void* a) { long b = (long)a; for (int i = 0; i < b / 10; i++) { try { p->push(b % 10 * 10 + i); sent++; } catch (boost::sync_queue_is_closed&) { nclosed++; } } } static void pcons(void* n) { for (long i = 0; i < (long)n; i++) { long v = -1; if (p->wait_pull(v) == st::closed) return; take(v); } } static void pconsv(void* n) { for (long i = 0; i < (long)n; i++) { try { take(p->pull()); } catch (boost::sync_queue_is_closed&) { return; } } } static void pclose(void*) { p->close(); }
static void s0() { vc_env.clk_fixed = 1; vc_env.clk[0] = vc_env.clk[1] = NOW; vc_sched_start(); vc_sched.preempt = -1; vc_sched.lazy = 1; vc_sched.spurious = 1; }
static void s1(bool drained, size_t left) { for (int i = 1; i <= vc_sched.n; i++) vc_assert(vc_done(i), "C20.waiting_pull_is_woken"); vc_assert((size_t)(sent - ngot) == left, "C20.nothing_lost"); if (drained) vc_assert(sent == ngot, "C20.nothing_lost"); vc_cover("end"); }
static void pgo(bool drained) { vc_run(); vc_self = 7; s1(drained, p->size()); }
ENTRY(sched_1p1c) { p = new PQ; s0(); vc_thread(pprod, (void*)21); vc_thread(pcons, (void*)2); pgo(true); } ENTRY(sched_1p2c) { p = new PQ; s0(); vc_thread(pprod, (void*)21); vc_thread(pcons, (void*)1); vc_thread(pconsv, (void*)1); pgo(true); } ENTRY(sched_2p1c) { p = new PQ; s0(); vc_thread(pprod, (void*)11); vc_thread(pprod, (void*)12); vc_thread(pconsv, (void*)2); pgo(true); } ENTRY(sched_close) { p = new PQ; s0(); vc_thread(pprod, (void*)21); vc_thread(pcons, (void*)9); vc_thread(pclose, 0); pgo(true); } ENTRY(sched_close2c) { p = new PQ; s0(); vc_thread(pprod, (void*)11); vc_thread(pcons, (void*)9); vc_thread(pconsv, (void*)9); vc_thread(pclose, 0); pgo(true); }
// timed: time passes only when no thread can go on; an element due in the past must be delivered before that
static bool passed; static bool idle() { if (passed) return false; passed = true; vc_env.clk[0] = vc_env.clk[1] = LATE; for (int i = 1; i <= vc_sched.n; i++) if (vc_sched.t[i].st == VT_COND && vc_sched.t[i].timed) vc_sched.t[i].notified = vc_sched.t[i].timedout = 1; return true; }
static int64_t when(long v) { return v % 2 ? LATE - 5 : NOW - 5; } // odd elements are due late
static void tprod(void* a) { for (long b = (long)a; b; b /= 10) { try { t->push(b % 10, TP(bc::nanoseconds(when(b % 10)))); sent++; } catch (boost::sync_queue_is_closed&) { nclosed++; } } } static void ttake(long v) { vc_assert(vc_env.clk[1] >= when(v), "C20.never_early"); take(v); }
static void tcons(void* n) { for (long i = 0; i < (long)n; i++) { long v = -1; if (t->wait_pull(v) == st::closed) return; ttake(v); } } static void tconsv(void* n) { for (long i = 0; i < (long)n; i++) { try { ttake(t->pull()); } catch (boost::sync_queue_is_closed&) { return; } } } static void tuntil(void* n) { for (long i = 0; i < (long)n; i++) { long v = -1; st s = t->pull_until(TP(bc::nanoseconds(LATE)), v); if (s != st::success) { if (s != st::closed) vc_assert(vc_env.clk[1] >= LATE, "C20.gives_up_only_after_the_deadline"); return; } ttake(v); } } static void tclose(void*) { t->close(); }
static bool early_ok; static bool idle1() { if (!passed && early_ok) for (int i = 0, g = 0; i < 1; i++) { for (int j = 0; j < ngot; j++) g += got[j] % 2 == 0; vc_assert(g > 0, "C20.due_element_is_delivered_without_waiting"); } return idle(); }
static void t0(bool e = false) { t = new TQ; s0(); early_ok = e; vc_sched.idle = idle1; } static void tgo(bool drained) { vc_run(); vc_self = 7; s1(drained, t->size()); }
ENTRY(sched_timed_1p1c) { t0(true); vc_thread(tprod, (void*)21); vc_thread(tcons, (void*)2); tgo(true); } ENTRY(sched_timed_1p2c) { t0(true); vc_thread(tprod, (void*)21); vc_thread(tcons, (void*)1); vc_thread(tconsv, (void*)1); tgo(true); } ENTRY(sched_timed_2p1c) { t0(true); vc_thread(tprod, (void*)1); vc_thread(tprod, (void*)2); vc_thread(tconsv, (void*)2); tgo(true); } ENTRY(sched_timed_until) { t0(true); vc_thread(tprod, (void*)21); vc_thread(tuntil, (void*)2); tgo(true); } ENTRY(sched_timed_until_close) { t0(); vc_thread(tprod, (void*)21); vc_thread(tuntil, (void*)2); vc_thread(tclose, 0); tgo(false); } ENTRY(sched_timed_until_2c) { t0(); vc_thread(tprod, (void*)21); vc_thread(tuntil, (void*)1); vc_thread(tcons, (void*)1); tgo(true); } ENTRY(sched_timed_close) { t0(); vc_thread(tprod, (void*)21); vc_thread(tcons, (void*)9); vc_thread(tclose, 0); tgo(false); }
