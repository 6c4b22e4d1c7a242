// Elements and the abstract container used by the queue contracts: a sequence of any length of which only the identity
// of the front element and the effects of the operation under verification are tracked.
#pragma once
#include "vc_boost.h"
#include <boost/thread/thread.hpp>
#include <boost/thread/pthread/thread_data.hpp>
namespace bc = boost::chrono; namespace bd = boost::detail; namespace boost { namespace detail { thread_data_base* get_or_make_current_thread_data(); } }
static const long MOVED = -77; static bool elem_throws; static int ecopies, emoves; struct ElemThrow {};
static void ethrow() { if (elem_throws && vc_choose("element_throws")) throw ElemThrow(); }
struct E { long v; explicit E(long x = 0) : v(x) {} E(const E& o) : v((ethrow(), o.v)) { ecopies++; } E(E&& o) : v((ethrow(), o.v)) { emoves++; o.v = MOVED; }
  E& operator=(const E& o) { ethrow(); v = o.v; ecopies++; return *this; } E& operator=(E&& o) { ethrow(); v = o.v; emoves++; if (&o != this) o.v = MOVED; return *this; } };
static pthread_mutex_t* qmtx; static bool qctor; // the mutex that guards the container
static void qheld() { if (!qctor) vc_assert(vc_held(qmtx), "lock_held_while_touching_elements"); }
struct GQ { // abstract sequence
  typedef E value_type; typedef size_t size_type; typedef E& reference; typedef const E& const_reference;
  size_t n; long head; E f; bool mat; int npush, npop, ntouch; long pushed, popped;
  GQ() : n(0), head(0), f(0), mat(false), npush(0), npop(0), ntouch(0), pushed(0), popped(0) {}
  GQ(GQ&& o) : n(o.n), head(o.head), f(o.head), mat(false), npush(0), npop(0), ntouch(0), pushed(0), popped(0) { qheld(); o.n = 0; o.ntouch++; }
  bool empty() const { qheld(); return n == 0; } size_t size() const { qheld(); return n; }
  E& front() { qheld(); vc_assert(n > 0, "front_of_nonempty"); if (!mat) { f.v = head; mat = true; } return f; }
  void pop_front() { qheld(); vc_assert(n > 0, "pop_of_nonempty"); popped = head; n--; npop++; mat = false; head = (long)vc_nondet_u64("next_id"); vc_assume(head != MOVED); }
  void push_back(const E& x) { qheld(); E c(x); pushed = c.v; n++; npush++; } void push_back(E&& x) { qheld(); E c((E&&)x); pushed = c.v; n++; npush++; }
};
