// Wake-up scenarios: W is a blocked operation, W2 any other blocked operation (the one a single notification may go to),
// R any operation of another thread. All further threads are part of the havocked state. If R leaves W able to proceed,
// W - or the waiter that received the notification and could proceed - must have been notified.
// Cfg: enum NW (operations that may block, ops 0..NW-1), NR (all operations), timed(op), run(op, far), pre(op), waitmode(op),
// havoc() (assigns the object an arbitrary state satisfying its invariant, given the modes in Sc::T), init().
#pragma once
#include "vc_env.h"
static const int64_t SC_FAR = 1000000000000000LL, SC_NOW = 5000000000LL;
struct ScTh { int op, mode, far; bool done, ok; int id; };
#ifndef SC_TIMEOUTS
#define SC_TIMEOUTS 1 // 0: ability to proceed depends on the clock; time stands still
#endif
template <class C> struct Sc {
  static ScTh T[6]; static int nT;
  static int cnt(int m) { int n = 0; for (int i = 1; i <= nT; i++) n += T[i].mode == m; return n; }
  static void body(void* p) { ScTh* t = (ScTh*)p; t->ok = C::run(t->op, t->far); t->done = true; }
  static int spawn(int op, int far) { int i = ++nT; T[i].op = op; T[i].mode = C::pre(op); T[i].far = far; T[i].done = false; T[i].id = vc_thread(body, &T[i]); return i; }
  static bool blocked(int i) { return vc_step(T[i].id) == VT_COND; }
  static bool notified(int i) { return vc_sched.t[T[i].id].notified; }
  static void pass() { vc_cover("end"); vc_end(); }
  static void go(int wop, const char* id) {
    C::init(); vc_sched_start(); vc_env.clk_fixed = 1; vc_env.clk[0] = vc_env.clk[1] = SC_NOW; nT = 0;
    int rop = 0; while (rop < C::NR && !vc_choose("next_r")) rop++;
    int w2op = -1; for (int o = 0; o < C::NW && w2op < 0; o++) if (vc_choose("w2")) w2op = o;
    if (rop == C::NR && (w2op < 0 || !C::timed(w2op) || !SC_TIMEOUTS)) vc_end();
    int w = spawn(wop, 2), w2 = w2op >= 0 ? spawn(w2op, 1) : 0, r = rop < C::NR ? spawn(rop, 0) : 0;
    C::havoc(); if (!blocked(w)) vc_end(); T[w].mode = C::waitmode(wop);
    if (w2) { C::havoc(); if (!blocked(w2)) vc_end(); T[w2].mode = C::waitmode(w2op); }
    C::havoc(); if (!blocked(w)) vc_end(); if (w2 && !blocked(w2)) vc_end(); if (!blocked(w)) vc_end();
    vc_sched.t[T[w].id].notified = 0; if (w2) vc_sched.t[T[w2].id].notified = 0;
    vc_cover("both_blocked");
    if (r) vc_step(T[r].id); else { vc_env.clk[0] = vc_env.clk[1] = SC_FAR + 1; vc_step(T[w2].id, true); if (!T[w2].done) vc_end(); }
    if (notified(w)) { vc_cover("notified"); pass(); }
    if (w2 && r && notified(w2)) { bool to = SC_TIMEOUTS && C::timed(w2op) && vc_choose("w2_times_out"); if (to) vc_env.clk[0] = vc_env.clk[1] = SC_FAR + 1; vc_step(T[w2].id, to); if (T[w2].done && T[w2].ok) pass(); if (notified(w)) pass(); }
    vc_step(T[w].id); // would W proceed if it looked?
    vc_assert(!(T[w].done && T[w].ok), id); vc_cover("stays_blocked"); pass();
  }
};
template <class C> ScTh Sc<C>::T[6]; template <class C> int Sc<C>::nT;
static inline int64_t sc_dl(int far) { return far ? SC_FAR * far : SC_NOW - 1000; }
