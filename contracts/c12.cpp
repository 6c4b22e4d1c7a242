// C12: exit functions, thread-specific pointers, and results and notifications deferred to the end of the thread.
#define BOOST_THREAD_PROVIDES_FUTURE
#include "vc_boost.h"
#include <boost/thread/thread.hpp>
#include <boost/thread/tss.hpp>
#include <boost/thread/future.hpp>
#include <boost/thread/condition_variable.hpp>
#include <boost/thread/pthread/thread_data.hpp>
namespace bd = boost::detail; namespace bt = boost::this_thread; typedef boost::thread TH;
namespace boost { namespace detail { thread_data_base* get_or_make_current_thread_data(); struct thread_exit_callback_node { thread_exit_function_base* func; thread_exit_callback_node* next; }; } }
static const char* ID;
// ---------------------------------------------------------------- thread_specific_ptr: every operation from every state
struct V { int n; }; static int cleaned[8], cleanwho; static V vals[8]; static bool cleaning; static void clean(V* p) { int i = p - vals; vc_assert(p && i >= 0 && i < 8, "C12.cleanup_gets_a_value"); cleaned[i]++; cleanwho = vc_self; }
typedef boost::thread_specific_ptr<V> TP; static void nocleanups(int except = -1, int n = 0) { for (int i = 0; i < 8; i++) vc_assert(cleaned[i] == (i == except ? n : 0), "C12.cleanup_exactly_once"); }
// this thread's value: 0 never touched, 1 set to v0, 2 set and reset to null; other pointers and another thread have values of their own
static TP *P, *O; static V* cur; static bool hasc; static void tss0() { vc_self = 1; hasc = vc_choose("has_cleanup"); bool of = vc_choose("other_pointer_first"); if (of) O = new TP(clean); P = new TP(hasc ? clean : (void (*)(V*))0); if (!of) O = new TP(clean);
  if (vc_choose("other_pointer_set")) O->reset(&vals[5]); else O = 0; if (vc_choose("other_thread_set")) { vc_self = 2; P->reset(&vals[6]); vc_self = 1; } cur = 0; if (vc_choose("set")) { P->reset(&vals[0]); cur = &vals[0]; if (vc_choose("set_again")) { P->reset(&vals[1]); cur = &vals[1]; vc_assert(cleaned[0] == hasc, "C12.cleanup_exactly_once"); cleaned[0] = 0; } else if (vc_choose("nulled")) { P->reset(); cur = 0; vc_assert(cleaned[0] == hasc, "C12.cleanup_exactly_once"); cleaned[0] = 0; } } nocleanups(); vc_self = 2; V* v2 = P->get(); vc_assert(v2 == 0 || v2 == &vals[6], "C12.values_are_per_thread"); vc_self = 1; }
static V* on2() { vc_self = 2; V* r = P->get(); vc_self = 1; return r; }
static int idx(V* p) { return p ? p - vals : -1; }
ENTRY(tss_get) { tss0(); vc_assert(P->get() == cur, "C12.get_returns_the_last_value_set"); if (cur) vc_assert(P->operator->() == cur && &**P == cur, "C12.get_returns_the_last_value_set"); if (O) vc_assert(O->get() == &vals[5], "C12.pointers_are_independent"); vc_self = 3; vc_assert(P->get() == 0, "C12.starts_null"); vc_self = 1; nocleanups(); vc_cover("end"); }
ENTRY(tss_reset) { tss0(); V* w = on2(); bool null = vc_choose("null"), same = !null && vc_choose("same_value"); V* nv = null ? 0 : same ? cur : &vals[2]; P->reset(nv); vc_assert(P->get() == nv, "C12.get_returns_the_last_value_set"); bool must = cur && cur != nv && hasc; nocleanups(idx(cur), must); if (must) vc_assert(cleanwho == 1, "C12.cleanup_on_the_own_thread"); vc_assert(on2() == w, "C12.values_are_per_thread"); if (O) vc_assert(O->get() == &vals[5], "C12.pointers_are_independent"); vc_cover("end"); }
ENTRY(tss_release) { tss0(); V* w = on2(); V* r = P->release(); vc_assert(r == cur && P->get() == 0, "C12.release_gives_up_the_value"); nocleanups(); vc_assert(on2() == w, "C12.values_are_per_thread"); if (vc_choose("set")) { P->reset(&vals[3]); vc_assert(P->get() == &vals[3], "C12.get_returns_the_last_value_set"); } nocleanups(); if (O) vc_assert(O->get() == &vals[5], "C12.pointers_are_independent"); vc_cover("end"); }
ENTRY(tss_destroy) { tss0(); delete P; nocleanups(idx(cur), cur && hasc); if (O) vc_assert(O->get() == &vals[5], "C12.pointers_are_independent"); bd::thread_data_base* d = bd::get_current_thread_data(); if (d) vc_assert(d->tss_data.find(P) == d->tss_data.end(), "C12.destruction_leaves_no_value"); vc_cover("end"); }
ENTRY(tss_default_cleanup) { vc_self = 1; struct D { int* c; ~D() { ++*c; } }; int c = 0; { boost::thread_specific_ptr<D> p; D* a = new D; a->c = &c; D* b = new D; b->c = &c; p.reset(a); vc_assert(c == 0 && p.get() == a, "C12.default_cleanup_deletes"); p.reset(b); vc_assert(c == 1 && p.get() == b, "C12.default_cleanup_deletes"); if (vc_choose("release")) { vc_assert(p.release() == b && c == 1, "C12.default_cleanup_deletes"); delete b; } } vc_assert(c == 2, "C12.default_cleanup_deletes"); vc_cover("end"); }
// ---------------------------------------------------------------- the end of a thread
enum { LAUNCHED, EXTERNAL }; static int kind; static TH* handle; static void* (*pbody)(void*); static void* pargs; static int on_create(void* (*f)(void*), void* a) { pbody = f; pargs = a; return 0; }
static bool infn, ended; static int order[16], norder; static bd::thread_data_base* rec;
static void note(int k) { vc_assert(vc_self == 2, "C12.on_the_own_thread"); vc_assert(!infn, "C12.only_after_the_function_ended"); if (rec && kind == LAUNCHED) vc_assert(!rec->done, "C12.before_the_thread_counts_as_ended"); for (int i = 0; i < norder; i++) vc_assert(order[i] != k, "C12.exactly_once"); vc_assert(norder < 16, "C12.exactly_once"); order[norder++] = k; }
static bool did(int k) { for (int i = 0; i < norder; i++) if (order[i] == k) return true; return false; }
static void (*userfn)(); static void tbody() { infn = true; rec = bd::get_current_thread_data(); userfn(); infn = false; if (kind == LAUNCHED && vc_choose("function_interrupted")) throw boost::thread_interrupted(); }
// runs userfn as a whole thread with ghost id 2: launched by boost (its handle kept by the creator or not) or launched elsewhere and unknown to boost
static bool keep; static void runthread(void (*f)(), int k) { userfn = f; kind = k; if (k == LAUNCHED) { vc_self = 1; vc_env.create_hook = on_create; handle = new TH(tbody); keep = vc_choose("handle_kept"); if (!keep) { handle->detach(); } vc_self = 2; pbody(pargs); vc_assert(vc_tss_get(2, 0) == 0, "C12.nothing_left"); } else { vc_self = 2; if (vc_choose("known_to_boost")) bd::get_or_make_current_thread_data(); tbody(); for (int i = 0; i < 4; i++) vc_run_tss_dtors(2); }
  vc_self = 1; ended = true; if (k == LAUNCHED && keep) vc_assert(handle->thread_info->done, "C12.thread_ends"); }
static void fin() { vc_self = 1; if (kind == LAUNCHED && keep) { if (vc_choose("join")) handle->join(); else { delete handle; handle = 0; } } vc_cover("end"); } // what happens to the handle later makes no difference
static bool two_ok; static void x1() { note(1); } static void x4() { note(4); } static void x3() { note(3); bt::at_thread_exit(x4); } static void x2() { note(2); bt::at_thread_exit(x3); if (two_ok && vc_choose("registers_two")) bt::at_thread_exit(x1); }
static bool w1, w2; static TP *tA, *tB; static int nA, nB;
static void exits() { w1 = vc_choose("first"); w2 = vc_choose("second"); if (w1) bt::at_thread_exit(x1); if (w2) bt::at_thread_exit(x2); two_ok = !w1; vc_assert(norder == 0, "C12.only_after_the_function_ended"); }
static void b_exit(int k) { runthread(exits, k); bool two = did(3); if (w1) vc_assert(did(1), "C12.exactly_once"); else if (!w2) vc_assert(norder == 0, "C12.exactly_once"); if (w2) vc_assert(did(2) && did(3) && did(4), "C12.functions_registered_by_exit_functions_run"); else vc_assert(!two, "C12.exactly_once"); fin(); }
ENTRY(b_exit_functions) { w1 = false; b_exit(LAUNCHED); } ENTRY(b_exit_functions_external) { b_exit(EXTERNAL); }
struct Mark { int k; int* live; Mark(int k_, int* l) : k(k_), live(l) { ++*live; } Mark(const Mark& o) : k(o.k), live(o.live) { ++*live; } ~Mark() { --*live; } void operator()() { note(k); } }; static int mlive;
static void marks() { for (int i = 0; i < 3; i++) { Mark m(i + 1, &mlive); bt::at_thread_exit(m); } } ENTRY(b_exit_function_objects) { vc_self = 1; uint64_t h0 = vcx_heap_count(); int k = vc_choose("external"); runthread(marks, k); vc_assert(norder == 3 && mlive == 0, "C12.exactly_once"); fin(); }
// values: two pointers set in any combination; the cleanup of one may set the other (again), an exit function may set one
static V va[4], vb[4]; static int ca, cb, sa, sb; static bool setsb, setsa, registers, regd; static int depth; static void xlate();
static void setA() { if (sa < 4) tA->reset(&va[sa++]); } static void setB() { if (sb < 4) tB->reset(&vb[sb++]); }
static void clA(V* p) { vc_assert(vc_self == 2 && p >= va && p < va + sa && p->n == 0, "C12.cleanup_exactly_once"); p->n = 1; ca++; if (setsb && depth++ < 2) setB(); if (registers && !regd) { regd = true; bt::at_thread_exit(xlate); } } static void clB(V* p) { vc_assert(vc_self == 2 && p >= vb && p < vb + sb && p->n == 0, "C12.cleanup_exactly_once"); p->n = 1; cb++; if (setsa && depth++ < 2) setA(); }
static void xlate() { note(9); } static void xsets() { note(1); if (vc_choose("exit_function_sets")) setA(); }
static V* rel_; static void values() { if (vc_choose("a")) { setA(); if (vc_choose("a_again")) setA(); else if (vc_choose("a_nulled")) tA->reset(); } if (vc_choose("b")) setB(); if (sa && vc_choose("release")) { rel_ = tA->release(); if (rel_) { rel_->n = 1; ca++; } } if (vc_choose("exit_function")) bt::at_thread_exit(xsets); }
ENTRY(b_values) { vc_self = 1; tA = new TP(clA); tB = new TP(clB); setsb = vc_choose("cleanup_of_a_sets_b"); setsa = !setsb && vc_choose("cleanup_of_b_sets_a"); registers = !setsb && !setsa && vc_choose("cleanup_of_a_registers_an_exit_function"); /* (a cleanup does not set the pointer whose value it is cleaning up) */ runthread(values, LAUNCHED); vc_assert(did(9) == regd, "C12.functions_registered_by_cleanups_run"); vc_assert(ca == sa && cb == sb, "C12.every_value_is_cleaned_up"); fin(); }
ENTRY(b_values_external) { vc_self = 1; tA = new TP(clA); tB = new TP(clB); runthread(values, EXTERNAL); vc_assert(ca == sa && cb == sb, "C12.every_value_is_cleaned_up"); fin(); }
// ---------------------------------------------------------------- notifications and results deferred to the end
static boost::mutex* mx; static boost::condition_variable* cv; static boost::promise<int>* pr; static boost::future<int>* fu; static int form; static pthread_mutex_t* raw() { return mx->native_handle(); }
static void pending() { vc_assert(VM(raw())->owner == 2 && VCn(&cv->cond)->bcasts == 0, "C12.lock_kept_until_the_thread_ends"); } static void xn() { note(1); pending(); } static void clN(V*) { note(2); pending(); }
static void notif() { boost::unique_lock<boost::mutex> lk(*mx); if (vc_choose("exit_function")) bt::at_thread_exit(xn); if (vc_choose("value")) tA->reset(&va[0]); boost::notify_all_at_thread_exit(*cv, boost::move(lk)); vc_assert(!lk.owns_lock(), "C12.lock_handed_over"); pending(); }
static void notify_e(int k) { vc_self = 1; tA = new TP(clN); mx = new boost::mutex; cv = new boost::condition_variable; runthread(notif, k); vc_assert(VM(raw())->owner == 0, "C12.lock_released_when_the_thread_ends"); vc_assert(VCn(&cv->cond)->bcasts > 0, "C12.condition_notified_when_the_thread_ends"); fin(); }
ENTRY(notify_all_at_thread_exit) { notify_e(LAUNCHED); } ENTRY(notify_all_at_thread_exit_external) { notify_e(EXTERNAL); }
static void notready() { vc_assert(!fu->is_ready() && !fu->has_value() && !fu->has_exception(), "C12.not_ready_before_the_thread_ends"); } static void xr() { note(1); notready(); } static void clR(V*) { note(2); notready(); }
struct Boom { int v; };
static int thefn() { if (form == 3) throw Boom{5}; return 42; } static boost::packaged_task<int>* ptk;
static void result() { if (vc_choose("exit_function")) bt::at_thread_exit(xr); if (vc_choose("value")) tA->reset(&va[0]); if (form == 0) pr->set_value_at_thread_exit(42); else if (form == 1) pr->set_exception_at_thread_exit(boost::copy_exception(Boom{5})); else ptk->make_ready_at_thread_exit(); notready(); if (vc_choose("provider_destroyed")) { if (pr) { delete pr; pr = 0; } if (ptk) { delete ptk; ptk = 0; } notready(); } }
static void result_e(int k, int f) { vc_self = 1; form = f; tA = new TP(clR); if (f < 2) { pr = new boost::promise<int>; fu = new boost::future<int>(pr->get_future()); } else { ptk = new boost::packaged_task<int>(thefn); fu = new boost::future<int>(ptk->get_future()); } runthread(result, k); vc_assert(fu->is_ready(), "C12.ready_when_the_thread_ends"); int v = 0; bool x = false; try { v = fu->get(); } catch (Boom& b) { x = b.v == 5; } vc_assert(f % 2 ? x : v == 42, "C12.result_delivered"); fin(); }
ENTRY(set_value_at_thread_exit) { result_e(LAUNCHED, 0); } ENTRY(set_exception_at_thread_exit) { result_e(LAUNCHED, 1); } ENTRY(task_at_thread_exit) { result_e(LAUNCHED, 2); } ENTRY(throwing_task_at_thread_exit) { result_e(LAUNCHED, 3); } ENTRY(set_value_at_thread_exit_external) { result_e(EXTERNAL, 0); } ENTRY(set_exception_at_thread_exit_external) { result_e(EXTERNAL, 1); } ENTRY(task_at_thread_exit_external) { result_e(EXTERNAL, 2); }
// deferred from an exit function or a cleanup; several locks and results at once
static int where2; static boost::mutex* mx2; static boost::condition_variable* cv2; static void defer_all() { pr->set_value_at_thread_exit(7); boost::unique_lock<boost::mutex> a(*mx), b(*mx2); boost::notify_all_at_thread_exit(*cv, boost::move(a)); boost::notify_all_at_thread_exit(*cv2, boost::move(b)); vc_assert(VM(mx2->native_handle())->owner == 2, "C12.lock_kept_until_the_thread_ends"); }
static void xd() { note(1); defer_all(); } static void clD(V* p) { p->n++; note(2); defer_all(); } static void later() { if (where2 == 0) defer_all(); else if (where2 == 1) bt::at_thread_exit(xd); else tA->reset(&va[0]); }
ENTRY(b_deferred_from_exit_code) { vc_self = 1; where2 = vc_choose("from_exit_function") ? 1 : vc_choose("from_cleanup") ? 2 : 0; tA = new TP(clD); mx = new boost::mutex; cv = new boost::condition_variable; mx2 = new boost::mutex; cv2 = new boost::condition_variable; pr = new boost::promise<int>; fu = new boost::future<int>(pr->get_future()); runthread(later, vc_choose("external"));
  vc_assert(VM(raw())->owner == 0 && VM(mx2->native_handle())->owner == 0, "C12.lock_released_when_the_thread_ends"); vc_assert(VCn(&cv->cond)->bcasts > 0 && VCn(&cv2->cond)->bcasts > 0, "C12.condition_notified_when_the_thread_ends"); vc_assert(fu->is_ready() && fu->get() == 7, "C12.ready_when_the_thread_ends"); if (where2) vc_assert(did(where2), "C12.exactly_once"); fin(); }
