// Contracts of the POSIX thread primitives (assumed; part of the trusted base).
#include "vc_env.h"
#include <sched.h>
#include <unistd.h>
#include <string.h>
#include <sys/time.h>
int vc_self = 1; VCEnv vc_env; extern "C" { int vc_alloc_may_fail = 0; }
static int inject(int mask, const char* nm) {
  if (!mask) return 0;
  static const int codes[] = {EINTR, EBUSY, EDEADLK, EINVAL, EAGAIN, ENOMEM, EPERM};
  for (int i = 0; i < 7; i++) if ((mask >> i) & 1) if (vc_choose(nm)) return codes[i];
  return 0;
}
static VMutex* mx(pthread_mutex_t* m) { VMutex* v = VM(m); vc_assert(v->magic == 0 || v->magic == VC_MAGIC_M, "env.mutex_initialised"); return v; }
static VCond* cx(pthread_cond_t* c) { VCond* v = VCn(c); vc_assert(v->magic == 0 || v->magic == VC_MAGIC_C, "env.cond_initialised"); return v; }
static void acquired(pthread_mutex_t* m) { for (int i = 0; i < vc_env.nmon; i++) if (vc_env.mon[i].m == m && vc_env.mon[i].acq) vc_env.mon[i].acq(vc_env.mon[i].ctx); }
static void releasing(pthread_mutex_t* m) { for (int i = 0; i < vc_env.nmon; i++) if (vc_env.mon[i].m == m && vc_env.mon[i].rel) vc_env.mon[i].rel(vc_env.mon[i].ctx); }
static void take(pthread_mutex_t* m, VMutex* v) { v->owner = vc_self; v->count = 1; acquired(m); }
static void give(pthread_mutex_t* m, VMutex* v) { releasing(m); v->owner = 0; v->count = 0; }
// ---- scheduler
VSched vc_sched;
static void co_entry(void* p) { int id = vc_self; vc_sched.t[id].fn(vc_sched.t[id].arg); vc_sched.t[id].st = VT_DONE; vc_self = 0; vc_co_switch(0); vc_end(); }
static void yield_to_main() { vc_self = 0; vc_co_switch(0); }
void vc_sched_start() { vc_self = 0; vc_sched.on = 1; vc_sched.n = 0; }
int vc_thread(void (*fn)(void*), void* arg) { int id = ++vc_sched.n; VThread& t = vc_sched.t[id]; t.fn = fn; t.arg = arg; t.st = VT_READY; t.notified = t.timed = t.timedout = t.waits = 0; vc_co_new(id, co_entry, 0); return id; }
static bool runnable(int i, int how) { VThread& t = vc_sched.t[i]; if (vc_sched.may_run && !vc_sched.may_run(i)) return false;
  if (t.st == VT_READY) return how == 0; if (t.st == VT_MUTEX) return how == 0 && VM(t.m)->owner == 0;
  if (t.st == VT_COND) { if (t.notified) return how == 0; if (how == 1) return t.timed && vc_sched.timeouts > 0; if (how == 2) return vc_sched.spurious > 0; } return false; }
void vc_run() { vc_cover("schedules"); // marks the entry as bounded (in the number of threads)
  for (;;) {
    vc_merge(); int pick = 0, how = 0, last = 0;
    for (int i = 1; i <= vc_sched.n; i++) if (runnable(i, 0)) last = i;
    for (int i = 1; i <= vc_sched.n && !pick; i++) { if (runnable(i, 1) && vc_choose("timeout")) { pick = i; how = 1; } else if (runnable(i, 2) && vc_choose("spurious")) { pick = i; how = 2; } }
    for (int i = 1; i <= vc_sched.n && !pick; i++) if (runnable(i, 0) && (i == last || vc_choose("schedule"))) pick = i;
    if (!pick) { if (vc_sched.idle && vc_sched.idle()) continue; return; } // idle may let time pass
    VThread& t = vc_sched.t[pick];
    if (how == 1) { vc_sched.timeouts--; t.timedout = 1; t.notified = 1; } if (how == 2) { vc_sched.spurious--; t.notified = 1; }
    if (t.st == VT_READY || t.st == VT_COND || t.st == VT_MUTEX) { t.st = VT_READY; vc_self = pick; vc_co_switch(pick); }
  }
}
int vc_step(int id, bool timeout) { VThread& t = vc_sched.t[id]; int old = vc_self; if (t.st == VT_DONE) return VT_DONE; if (t.st == VT_COND) { t.notified = 1; t.timedout = timeout; } t.st = VT_READY; vc_self = id; vc_co_switch(id); vc_self = old; return t.st; }
void vc_yield_point() { if (!vc_sched.on || vc_self == 0) return; if (vc_sched.preempt && vc_choose("preempt")) { if (vc_sched.preempt > 0) vc_sched.preempt--; vc_sched.t[vc_self].st = VT_READY; yield_to_main(); } }
static void block_on(pthread_mutex_t* m) { int id = vc_self; while (VM(m)->owner) { vc_sched.t[id].st = VT_MUTEX; vc_sched.t[id].m = m; yield_to_main(); } }
extern "C" { int vc_atomic_hook_on = 0; void vc_atomic_hook(void* p, int k) { if (vc_env.atomic_hook) vc_env.atomic_hook(p, k); vc_yield_point(); } }
extern "C" {
int pthread_mutexattr_init(pthread_mutexattr_t* a) { *(int*)a = 0; return inject(vc_env.minit_err, "mutexattr_init"); }
int pthread_mutexattr_settype(pthread_mutexattr_t* a, int t) { *(int*)a = t; return inject(vc_env.minit_err, "mutexattr_settype"); }
int pthread_mutexattr_destroy(pthread_mutexattr_t*) { return 0; }
int pthread_mutex_init(pthread_mutex_t* m, const pthread_mutexattr_t* a) { int e = inject(vc_env.minit_err, "mutex_init"); if (e) return e; VMutex* v = VM(m); v->magic = VC_MAGIC_M; v->owner = 0; v->count = 0; v->type = a ? *(const int*)a : 0; return 0; }
int pthread_mutex_destroy(pthread_mutex_t* m) { VMutex* v = mx(m); if (v->owner) return EBUSY; v->magic = VC_DEAD; return 0; }
int pthread_mutex_lock(pthread_mutex_t* m) {
  VMutex* v = mx(m); int e = inject(vc_env.lock_err, "mutex_lock"); if (e) return e;
  if (v->owner == vc_self) { if (v->type == PTHREAD_MUTEX_RECURSIVE) { v->count++; return 0; } if (vc_env.self_relock_ok) { if (vc_choose("edeadlk")) return EDEADLK; vc_end(); } vc_assert(false, "env.self_deadlock"); vc_end(); }
  if (vc_sched.on && vc_self) { vc_yield_point(); block_on(m); }
  if (v->owner) { if (vc_env.block_hook) vc_env.block_hook(m); if (v->owner) vc_end(); } // blocked until the owner releases: that schedule is explored from the owner's side
  take(m, v); return 0;
}
int pthread_mutex_trylock(pthread_mutex_t* m) {
  VMutex* v = mx(m); int e = inject(vc_env.trylock_err, "mutex_trylock"); if (e) return e;
  if (v->owner == vc_self && v->type == PTHREAD_MUTEX_RECURSIVE) { v->count++; return 0; }
  if (v->owner || (vc_env.tryfail_ok && vc_choose("trylock_busy"))) return EBUSY;
  take(m, v); return 0;
}
int pthread_mutex_unlock(pthread_mutex_t* m) {
  VMutex* v = mx(m); int e = inject(vc_env.unlock_err, "mutex_unlock"); if (e) return e;
  vc_assert(v->owner == vc_self, "env.unlock_by_owner"); if (v->owner != vc_self) return EPERM;
  if (--v->count == 0) { give(m, v); if (!vc_sched.lazy) vc_yield_point(); } return 0;
}
int pthread_condattr_init(pthread_condattr_t* a) { *(int*)a = 0; return inject(vc_env.cinit_err, "condattr_init"); }
int pthread_condattr_destroy(pthread_condattr_t*) { return 0; }
int pthread_condattr_setclock(pthread_condattr_t* a, clockid_t c) { *(int*)a = (int)c; return 0; }
int pthread_cond_init(pthread_cond_t* c, const pthread_condattr_t* a) { int e = inject(vc_env.cinit_err, "cond_init"); if (e) return e; VCond* v = VCn(c); v->magic = VC_MAGIC_C; v->signals = v->bcasts = 0; v->clock = a ? *(const int*)a : 0; return 0; }
int pthread_cond_destroy(pthread_cond_t* c) { VCond* v = cx(c); v->magic = VC_DEAD; return 0; }
static int dowait(pthread_cond_t* c, pthread_mutex_t* m, bool timed) {
  cx(c); VMutex* v = mx(m);
  int e = inject(vc_env.wait_err, "cond_wait"); if (e && e != EINTR) return e; // on error the mutex stays locked
  vc_assert(v->owner == vc_self && v->count == 1, "env.wait_with_mutex_held");
  if (vc_env.waits < 2) vc_env.waits++;
  give(m, v);
  if (vc_env.wait_hook) vc_env.wait_hook(c, m);
  bool to = false;
  if (vc_sched.on && vc_self) { VThread& t = vc_sched.t[vc_self]; t.st = VT_COND; t.c = c; t.timed = timed; t.notified = 0; t.timedout = 0; if (t.waits < 3) t.waits++; yield_to_main(); to = t.timedout; t.c = 0; block_on(m); }
  if (v->owner) { if (vc_env.block_hook) vc_env.block_hook(m); if (v->owner) vc_end(); }
  take(m, v);
  if (vc_env.woken_hook) vc_env.woken_hook(c, m);
  if (e) return e;
  if (vc_env.wait_result) return vc_env.wait_result(c, timed);
  if (vc_sched.on && vc_self) return to ? ETIMEDOUT : 0;
  if (timed && vc_choose("etimedout")) return ETIMEDOUT;
  return 0;
}
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { return dowait(c, m, false); }
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* ts) { vc_assert(ts->tv_nsec >= 0 && ts->tv_nsec < 1000000000L, "env.timespec_normalised"); if (vc_env.timed_hook) vc_env.timed_hook(c, ts); return dowait(c, m, true); }
int pthread_cond_signal(pthread_cond_t* c) { VCond* v = cx(c); if (vc_sched.lazy) vc_yield_point(); if (v->signals < 2) v->signals++; if (vc_sched.on) { int last = 0; for (int i = 1; i <= vc_sched.n; i++) if (vc_sched.t[i].st == VT_COND && vc_sched.t[i].c == c && !vc_sched.t[i].notified) last = i; for (int i = 1; i <= vc_sched.n; i++) if (vc_sched.t[i].st == VT_COND && vc_sched.t[i].c == c && !vc_sched.t[i].notified) if (i == last || vc_choose("signal_target")) { vc_sched.t[i].notified = 1; break; } } if (vc_env.notify_hook) vc_env.notify_hook(c, false); return inject(vc_env.notify_err, "cond_signal"); }
int pthread_cond_broadcast(pthread_cond_t* c) { VCond* v = cx(c); if (vc_sched.lazy) vc_yield_point(); v->bcasts = 1; if (vc_sched.on) for (int i = 1; i <= vc_sched.n; i++) if (vc_sched.t[i].st == VT_COND && vc_sched.t[i].c == c) vc_sched.t[i].notified = 1; if (vc_env.notify_hook) vc_env.notify_hook(c, true); return inject(vc_env.notify_err, "cond_broadcast"); }
// clocks
static void clk_set(int w, int64_t t) { bool forget = w == 0 && vc_env.clock_jumps && vc_env.clk_hi_s; vc_env.clk[w] = forget ? 0 : t; vc_env.clk_init[w] = 1; if (vc_env.dl_on && vc_env.dlw == w && !vc_env.reached && vc_fork(t >= vc_env.dl)) vc_env.reached = 1; }
int clock_gettime(clockid_t id, struct timespec* ts) {
  int w = id == CLOCK_MONOTONIC ? 1 : 0; if (vc_env.clk_fixed) { if (vc_env.clk_fixed == 2 && vc_env.clk[w] != vc_env.clk_late && vc_choose("clock_passes")) vc_env.clk[w] = vc_env.clk_late; ts->tv_sec = vc_env.clk[w] / 1000000000LL; ts->tv_nsec = vc_env.clk[w] % 1000000000LL; return 0; }
  int64_t s = vc_range64(w ? "mono_sec" : "real_sec", 0, vc_env.clk_hi_s ? vc_env.clk_hi_s : 8000000000LL), n = vc_range64(w ? "mono_nsec" : "real_nsec", 0, 999999999LL);
  int64_t t = s * 1000000000LL + n;
  if (vc_env.clk_init[w] && (w == 1 || !vc_env.clock_jumps)) vc_assume(t >= vc_env.clk[w]);
  clk_set(w, t); ts->tv_sec = s; ts->tv_nsec = n; return 0;
}
static int my_errno; int* __errno_location() { return &my_errno; }
int nanosleep(const struct timespec* ts, struct timespec* rem) {
  vc_assert(ts->tv_nsec >= 0 && ts->tv_nsec < 1000000000L, "env.timespec_normalised"); if (vc_env.sleeps < 2) vc_env.sleeps++;
  if (!vc_env.clk_hi_s) { if (vc_choose("sleep_interrupted")) { if (rem) *rem = *ts; my_errno = EINTR; return -1; } return 0; }
  int64_t d = (int64_t)ts->tv_sec * 1000000000LL + ts->tv_nsec; struct timespec x; clock_gettime(CLOCK_MONOTONIC, &x); int64_t g = vc_env.clk[1] + d; // the remaining time covers at least what is left until g
  if (vc_choose("sleep_interrupted")) { int64_t rs = vc_range64("rem_sec", 0, 4000000000LL), rn = vc_range64("rem_nsec", 0, 999999999LL), r = rs * 1000000000LL + rn; clock_gettime(CLOCK_MONOTONIC, &x); vc_assume(vc_env.clk[1] >= g - r); if (rem) { rem->tv_sec = rs; rem->tv_nsec = rn; } my_errno = EINTR; return -1; }
  clock_gettime(CLOCK_MONOTONIC, &x); vc_assume(vc_env.clk[1] >= g); return 0; }
int sched_yield() { if (vc_sched.on && vc_self) { vc_sched.t[vc_self].st = VT_READY; yield_to_main(); } return 0; } int usleep(useconds_t) { return 0; }
long sysconf(int) { return 4096; } long __sysconf(int n) { return sysconf(n); }
unsigned vc_nprocs_dummy() { return 1; }
// thread identity and thread-specific data
pthread_t pthread_self() { return (pthread_t)(vc_env.pself ? vc_env.pself : vc_self); }
enum { NT = 8, NK = 8 }; static void* tss[NT][NK]; static void (*tssd[NK])(void*); static unsigned nkeys = 0;
int pthread_key_create(pthread_key_t* k, void (*d)(void*)) { int e = inject(vc_env.setspec_err, "key_create"); if (e) return e; vc_assume(nkeys < NK); *k = nkeys; tssd[nkeys++] = d; return 0; }
int pthread_key_delete(pthread_key_t k) { return 0; }
void* pthread_getspecific(pthread_key_t k) { return k < NK ? tss[vc_self][k] : 0; }
int pthread_setspecific(pthread_key_t k, const void* p) { int e = inject(vc_env.setspec_err, "setspecific"); if (e) return e; if (k >= NK) return EINVAL; tss[vc_self][k] = (void*)p; return 0; }
int pthread_once(pthread_once_t* o, void (*f)()) { if (*o == PTHREAD_ONCE_INIT) { *o = 2; f(); } return 0; }
// threads
int pthread_attr_init(pthread_attr_t* a) { ((int64_t*)a)[0] = PTHREAD_CREATE_JOINABLE; ((int64_t*)a)[1] = 0; return inject(vc_env.attr_err, "attr_init"); }
int pthread_attr_destroy(pthread_attr_t*) { return 0; }
int pthread_attr_setstacksize(pthread_attr_t* a, size_t n) { ((int64_t*)a)[1] = (int64_t)n; return n < 16384 ? EINVAL : 0; }
int pthread_attr_getstacksize(const pthread_attr_t* a, size_t* n) { *n = (size_t)((int64_t*)a)[1]; return 0; }
int pthread_attr_setdetachstate(pthread_attr_t* a, int s) { ((int64_t*)a)[0] = s; return inject(vc_env.attr_err, "setdetachstate"); }
int pthread_attr_getdetachstate(const pthread_attr_t* a, int* s) { *s = (int)((int64_t*)a)[0]; return inject(vc_env.attr_err, "getdetachstate"); }
int pthread_create(pthread_t* t, const pthread_attr_t*, void* (*f)(void*), void* arg) { int e = inject(vc_env.create_err, "pthread_create"); if (e) return e; vc_env.thr_fn = f; vc_env.thr_arg = arg; vc_env.ncreated++; *t = (pthread_t)(100 + vc_env.ncreated); if (vc_env.create_hook) { int r = vc_env.create_hook(f, arg); if (r) return r; } return 0; }
int pthread_join(pthread_t t, void** r) { vc_env.njoined++; if (vc_env.join_hook) vc_env.join_hook((int)t); if (r) *r = 0; return 0; }
int pthread_detach(pthread_t t) { vc_env.ndetached++; if (vc_env.detach_hook) vc_env.detach_hook((int)t); return 0; }
}
int64_t vc_clock_read(int w) {
  if (vc_env.clk_ns) { int64_t t = vc_range64(w ? "mono_ns" : "real_ns", 0, vc_env.clk_hi_s * 1000000000LL); if (vc_env.clk_init[w] && (w == 1 || !vc_env.clock_jumps)) vc_assume(t >= vc_env.clk[w]); clk_set(w, t); return t; }
  struct timespec ts; clock_gettime(w ? CLOCK_MONOTONIC : CLOCK_REALTIME, &ts); return (int64_t)ts.tv_sec * 1000000000LL + ts.tv_nsec; }
void vc_tss_clear(int t) { for (int i = 0; i < NK; i++) tss[t][i] = 0; }
void* vc_tss_get(int t, unsigned k) { return tss[t][k]; } unsigned vc_tss_nkeys() { return nkeys; }
void vc_run_tss_dtors(int t) { int old = vc_self; vc_self = t; for (unsigned i = 0; i < nkeys; i++) { void* p = tss[t][i]; if (p && tssd[i]) { tss[t][i] = 0; tssd[i](p); } } vc_self = old; }
