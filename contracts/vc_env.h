// Ghost environment: contracts of the POSIX primitives (rt_pthread.cpp) as seen by one thread under verification.
#pragma once
#include "vc.h"
#include <pthread.h>
#include <errno.h>
#include <time.h>
extern int vc_self;                       // ghost id of the thread being executed
struct VMutex { uint32_t magic; int owner; int count; int type; };
struct VCond { uint32_t magic; int signals; int bcasts; int clock; };
static inline VMutex* VM(pthread_mutex_t* m) { return (VMutex*)m; }
static inline VCond* VCn(pthread_cond_t* c) { return (VCond*)c; }
struct VCEnv {
  // permitted failures of the primitives: bit 0 EINTR, 1 EBUSY, 2 EDEADLK, 3 EINVAL, 4 EAGAIN, 5 ENOMEM, 6 EPERM
  int lock_err, trylock_err, unlock_err, wait_err, minit_err, cinit_err, create_err, attr_err, notify_err, setspec_err, alloc;
  // monitors
  struct Mon { pthread_mutex_t* m; void (*acq)(void*); void (*rel)(void*); void* ctx; } mon[8]; int nmon;
  void (*wait_hook)(pthread_cond_t*, pthread_mutex_t*);      // caller has released the mutex and waits
  void (*woken_hook)(pthread_cond_t*, pthread_mutex_t*);     // mutex re-acquired
  void (*timed_hook)(pthread_cond_t*, const struct timespec*); // deadline passed to the primitive
  int (*wait_result)(pthread_cond_t*, bool timed);             // optional: decides the return code
  void (*notify_hook)(pthread_cond_t*, bool all);
  int (*create_hook)(void* (*)(void*), void*);                 // may run the thread body
  void (*join_hook)(int); void (*detach_hook)(int);
  void (*block_hook)(pthread_mutex_t*);                         // lock() finds the mutex owned by another ghost thread
  int self_relock_ok;                                           // lock() by the owner returns EDEADLK/blocks forever instead of being an obligation
  int clock_jumps;                                              // REALTIME may go backwards
  int64_t clk[2]; int clk_init[2];                               // last reading in ns: 0 REALTIME, 1 MONOTONIC
  int ncreated, njoined, ndetached, sleeps;
  void* thr_arg; void* (*thr_fn)(void*);
  int waits;                                                    // saturating count of cond waits
  int tryfail_ok, pself;                                        // pself: pthread_self() of the running thread, if not its ghost id
  void (*atomic_hook)(void*, int);                              // environment step before an atomic access (0 load, 1 store, 2 rmw) of the code under verification
  int clk_fixed;                                                // 1: clocks stand at clk[] (the harness moves them), 2: any reading may have passed clk_late
  int64_t clk_late; int clk_ns;                                 // clk_ns: one symbol per reading of vc_clock_read
  int64_t clk_hi_s; int dl_on, dlw, reached; int64_t dl;           // upper bound of readings in seconds; ghost: some reading of clock dlw has been at or past dl
};
extern VCEnv vc_env;
extern "C" int vc_alloc_may_fail;
int64_t vc_clock_read(int which);
static inline void vc_monitor(pthread_mutex_t* m, void (*a)(void*), void (*r)(void*), void* ctx) { vc_env.mon[vc_env.nmon].m = m; vc_env.mon[vc_env.nmon].acq = a; vc_env.mon[vc_env.nmon].rel = r; vc_env.mon[vc_env.nmon].ctx = ctx; vc_env.nmon++; }
static inline bool vc_held(pthread_mutex_t* m) { return VM(m)->owner == vc_self; }
void vc_tss_clear(int thread); void* vc_tss_get(int thread, unsigned key); unsigned vc_tss_nkeys(); void vc_run_tss_dtors(int thread);
// cooperative scheduler for multi-thread scenarios: threads are coroutines 1..n, the harness itself is thread 0
enum { VT_NONE, VT_READY, VT_MUTEX, VT_COND, VT_DONE };
struct VThread { void (*fn)(void*); void* arg; int st; pthread_mutex_t* m; pthread_cond_t* c; int timed, notified, timedout, waits; };
// lazy: preemption points only before acquiring, notifying and atomic accesses (enough for data-race-free code; releasing is a left mover)
struct VSched { int on, n, preempt, spurious, timeouts, lazy; VThread t[8]; bool (*idle)(); int (*may_run)(int); };
extern VSched vc_sched;
void vc_sched_start();                                   // harness becomes thread 0
int vc_thread(void (*fn)(void*), void* arg);             // returns the thread id
int vc_step(int id, bool timeout = false);                // (spuriously) resumes one thread until it blocks or ends; returns its state
void vc_run();                                           // runs until no thread can make progress
static inline bool vc_done(int id) { return vc_sched.t[id].st == VT_DONE; }
void vc_yield_point();
extern "C" int vc_atomic_hook_on;
#define VC_MAGIC_M 0x4d545831u
#define VC_MAGIC_C 0x434e4431u
#define VC_DEAD 0xdeaddeadu
