// Engine-only definitions of the parts of libstdc++ / libsupc++ that live in the shared library.
// They are part of the trusted base (they stand for the C++ runtime, not for boost.thread).
#define _GLIBCXX_USE_CXX11_ABI 1
#include <exception>
#include <new>
#include <typeinfo>
#include <string>
#include <stdexcept>
#include <system_error>
#include <functional>
#include <list>
#include <map>
#include <cstdlib>
#include <cstring>
#include <cstdarg>
#include "vc.h"
template class std::basic_string<char>;
extern "C" char __libc_single_threaded; char __libc_single_threaded = 0;
namespace boost { namespace system { namespace detail { void snprintf(char* b, std::size_t n, char const*, ...) { if (n) b[0] = 0; } } } }
extern "C" { void* vcx_alloc(uint64_t, uint64_t); void vcx_free(void*, uint64_t); [[noreturn]] void vcx_unwind(void*, const void*, void*); void* vcx_dyncast(const void*, const void*); extern int vc_alloc_may_fail; }
enum { K_NEW = 1, K_NEWA = 2, K_MALLOC = 3, K_EXC = 4, K_RT = 7 };
static void* nw(size_t n, int k) { if (vc_alloc_may_fail && vc_choose("alloc_fails")) throw std::bad_alloc(); return vcx_alloc(n, k); }
void* operator new(size_t n) { return nw(n, K_NEW); }
void* operator new[](size_t n) { return nw(n, K_NEWA); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { if (vc_alloc_may_fail && vc_choose("alloc_fails")) return 0; return vcx_alloc(n, K_NEW); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { if (vc_alloc_may_fail && vc_choose("alloc_fails")) return 0; return vcx_alloc(n, K_NEWA); }
void operator delete(void* p) noexcept { vcx_free(p, K_NEW); }
void operator delete(void* p, size_t) noexcept { vcx_free(p, K_NEW); }
void operator delete[](void* p) noexcept { vcx_free(p, K_NEWA); }
void operator delete[](void* p, size_t) noexcept { vcx_free(p, K_NEWA); }
void operator delete(void* p, const std::nothrow_t&) noexcept { vcx_free(p, K_NEW); }
extern "C" void* malloc(size_t n) { if (vc_alloc_may_fail && vc_choose("malloc_fails")) return 0; return vcx_alloc(n, K_MALLOC); }
extern "C" void free(void* p) { vcx_free(p, K_MALLOC); }
extern "C" void* calloc(size_t n, size_t m) { if (vc_alloc_may_fail && vc_choose("malloc_fails")) return 0; void* p = vcx_alloc(n * m, K_MALLOC); memset(p, 0, n * m); return p; }

// ---- exceptions
struct Hdr { const void* ti; void (*dtor)(void*); int64_t ref; int64_t pad; };
struct Tok { void* obj; void* adj; const void* ti; Tok* next; int64_t hc; int64_t pad; };
extern int vc_self; static Tok* caughtA[16]; static int uncaughtA[16];
#define caught caughtA[vc_self]
#define uncaught_n uncaughtA[vc_self]
static Hdr* hdr(void* o) { return (Hdr*)o - 1; }
static void addref(void* o) { hdr(o)->ref++; }
static void relref(void* o) { Hdr* h = hdr(o); if (--h->ref == 0) { if (h->dtor) h->dtor(o); vcx_free(h, K_EXC); } }
namespace __cxxabiv1 {
extern "C" {
void* __cxa_allocate_exception(size_t n) noexcept { Hdr* h = (Hdr*)vcx_alloc(n + sizeof(Hdr), K_EXC); h->ti = 0; h->dtor = 0; h->ref = 0; return h + 1; }
void __cxa_free_exception(void* o) noexcept { vcx_free(hdr(o), K_EXC); }
static Tok* mktok(void* o) { Tok* t = (Tok*)vcx_alloc(sizeof(Tok), K_EXC); t->obj = o; t->adj = o; t->ti = hdr(o)->ti; t->next = 0; t->hc = 0; return t; }
void __cxa_throw(void* o, std::type_info* ti, void (*d)(void*)) { Hdr* h = hdr(o); h->ti = ti; h->dtor = d; h->ref = 1; uncaught_n++; Tok* t = mktok(o); vcx_unwind(t, ti, o); }
struct __cxa_refcounted_exception;
__cxa_refcounted_exception* __cxa_init_primary_exception(void* o, std::type_info* ti, void (*d)(void*)) noexcept { Hdr* h = hdr(o); h->ti = ti; h->dtor = d; h->ref = 0; return (__cxa_refcounted_exception*)h; }
void* __cxa_get_exception_ptr(void* tok) noexcept { return ((Tok*)tok)->adj; }
void* __cxa_begin_catch(void* tok) noexcept { Tok* t = (Tok*)tok; t->hc = (t->hc < 0 ? -t->hc : t->hc) + 1; uncaught_n--; if (caught != t) { t->next = caught; caught = t; } return t->adj; }
void __cxa_end_catch() { Tok* t = caught; if (!t) return; if (t->hc < 0) { if (++t->hc == 0) caught = t->next; return; } if (--t->hc == 0) { caught = t->next; void* o = t->obj; vcx_free(t, K_EXC); relref(o); } }
void __cxa_rethrow() { Tok* t = caught; if (!t) std::terminate(); t->hc = -t->hc; uncaught_n++; vcx_unwind(t, t->ti, t->obj); }
std::type_info* __cxa_current_exception_type() noexcept { return caught ? (std::type_info*)caught->ti : 0; }
void __cxa_throw_bad_array_new_length() { throw std::bad_array_new_length(); }
void __cxa_bad_cast() { throw std::bad_cast(); }
void __cxa_bad_typeid() { throw std::bad_typeid(); }
void* __dynamic_cast(const void* p, const __class_type_info*, const __class_type_info* dst, ptrdiff_t) { return vcx_dyncast(p, dst); }
}
}
namespace std {
bool uncaught_exception() noexcept { return uncaught_n > 0; } int uncaught_exceptions() noexcept { return uncaught_n; }
namespace __exception_ptr {
exception_ptr::exception_ptr(void* o) noexcept : _M_exception_object(o) { if (o) addref(o); }
void exception_ptr::_M_addref() noexcept { if (_M_exception_object) addref(_M_exception_object); }
void exception_ptr::_M_release() noexcept { if (_M_exception_object) { relref(_M_exception_object); _M_exception_object = 0; } }
void* exception_ptr::_M_get() const noexcept { return _M_exception_object; }
const type_info* exception_ptr::__cxa_exception_type() const noexcept { return (const type_info*)hdr(_M_exception_object)->ti; }
}
exception_ptr current_exception() noexcept { exception_ptr p; if (caught) { void* o = caught->obj; addref(o); memcpy((void*)&p, &o, sizeof o); } return p; }
void rethrow_exception(exception_ptr p) { void* o; memcpy(&o, (void*)&p, sizeof o); addref(o); uncaught_n++; Tok* t = __cxxabiv1::mktok(o); p.~exception_ptr(); { void* z = 0; memcpy((void*)&p, &z, sizeof z); } vcx_unwind(t, t->ti, o); }
void terminate() noexcept { abort(); }
exception::~exception() noexcept {} const char* exception::what() const noexcept { return "std::exception"; }
bad_exception::~bad_exception() noexcept {} const char* bad_exception::what() const noexcept { return "bad_exception"; }
bad_alloc::~bad_alloc() noexcept {} const char* bad_alloc::what() const noexcept { return "bad_alloc"; }
bad_array_new_length::~bad_array_new_length() noexcept {} const char* bad_array_new_length::what() const noexcept { return "bad_array_new_length"; }
bad_cast::~bad_cast() noexcept {} const char* bad_cast::what() const noexcept { return "bad_cast"; }
bad_typeid::~bad_typeid() noexcept {} const char* bad_typeid::what() const noexcept { return "bad_typeid"; }
bad_function_call::~bad_function_call() noexcept {} const char* bad_function_call::what() const noexcept { return "bad_function_call"; }
type_info::~type_info() {}
static const char* dupc(const char* c) { size_t n = strlen(c); char* p = (char*)vcx_alloc(n + 1, K_RT); memcpy(p, c, n + 1); return p; }
__cow_string::__cow_string() { _M_p = ""; } __cow_string::__cow_string(const std::string& s) { _M_p = dupc(s.c_str()); } __cow_string::__cow_string(const char* s, size_t n) { char* p = (char*)vcx_alloc(n + 1, K_RT); memcpy(p, s, n); p[n] = 0; _M_p = p; }
__cow_string::__cow_string(const __cow_string& o) noexcept { _M_p = o._M_p; } __cow_string& __cow_string::operator=(const __cow_string& o) noexcept { _M_p = o._M_p; return *this; } __cow_string::~__cow_string() {}
__cow_string::__cow_string(__cow_string&& o) noexcept { _M_p = o._M_p; } __cow_string& __cow_string::operator=(__cow_string&& o) noexcept { _M_p = o._M_p; return *this; }
#define CSTR(m) (*(const char* const*)&(m))
logic_error::logic_error(const string& s) : _M_msg(s) {} logic_error::logic_error(const char* s) : _M_msg(s, strlen(s)) {} logic_error::~logic_error() noexcept {} const char* logic_error::what() const noexcept { return CSTR(_M_msg); }
logic_error::logic_error(const logic_error& o) noexcept : exception(o), _M_msg(o._M_msg) {} logic_error& logic_error::operator=(const logic_error& o) noexcept { _M_msg = o._M_msg; return *this; } logic_error::logic_error(logic_error&& o) noexcept : _M_msg(o._M_msg) {}
runtime_error::runtime_error(const string& s) : _M_msg(s) {} runtime_error::runtime_error(const char* s) : _M_msg(s, strlen(s)) {} runtime_error::~runtime_error() noexcept {} const char* runtime_error::what() const noexcept { return CSTR(_M_msg); }
runtime_error::runtime_error(const runtime_error& o) noexcept : exception(o), _M_msg(o._M_msg) {} runtime_error& runtime_error::operator=(const runtime_error& o) noexcept { _M_msg = o._M_msg; return *this; } runtime_error::runtime_error(runtime_error&& o) noexcept : _M_msg(o._M_msg) {}
#define LE(n, b) n::n(const string& s) : b(s) {} n::n(const char* s) : b(s) {} n::~n() noexcept {}
LE(domain_error, logic_error) LE(invalid_argument, logic_error) LE(length_error, logic_error) LE(out_of_range, logic_error)
#undef LE
#define LE(n, b) n::n(const string& s) : b(s) {} n::n(const char* s) : b(s) {} n::~n() noexcept {}
LE(range_error, runtime_error) LE(overflow_error, runtime_error) LE(underflow_error, runtime_error)
void __throw_bad_alloc() { throw bad_alloc(); } void __throw_bad_array_new_length() { throw bad_array_new_length(); } void __throw_bad_cast() { throw bad_cast(); } void __throw_logic_error(const char* s) { throw logic_error(s); } void __throw_invalid_argument(const char* s) { throw invalid_argument(s); }
void __throw_length_error(const char* s) { throw length_error(s); } void __throw_out_of_range(const char* s) { throw out_of_range(s); } void __throw_out_of_range_fmt(const char* s, ...) { throw out_of_range(s); } void __throw_runtime_error(const char* s) { throw runtime_error(s); } void __throw_bad_function_call() { throw bad_function_call(); } void __throw_overflow_error(const char* s) { throw overflow_error(s); }
namespace __detail {
void _List_node_base::_M_hook(_List_node_base* p) noexcept { _M_next = p; _M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this; }
void _List_node_base::_M_unhook() noexcept { _List_node_base* n = _M_next; _List_node_base* p = _M_prev; p->_M_next = n; n->_M_prev = p; }
void _List_node_base::_M_transfer(_List_node_base* f, _List_node_base* l) noexcept { if (this != l) { l->_M_prev->_M_next = this; f->_M_prev->_M_next = l; _M_prev->_M_next = f; _List_node_base* t = _M_prev; _M_prev = l->_M_prev; l->_M_prev = f->_M_prev; f->_M_prev = t; } }
void _List_node_base::swap(_List_node_base& x, _List_node_base& y) noexcept { if (x._M_next != &x) { if (y._M_next != &y) { std::swap(x._M_next, y._M_next); std::swap(x._M_prev, y._M_prev); x._M_next->_M_prev = x._M_prev->_M_next = &x; y._M_next->_M_prev = y._M_prev->_M_next = &y; } else { y._M_next = x._M_next; y._M_prev = x._M_prev; y._M_next->_M_prev = y._M_prev->_M_next = &y; x._M_next = x._M_prev = &x; } } else if (y._M_next != &y) { x._M_next = y._M_next; x._M_prev = y._M_prev; x._M_next->_M_prev = x._M_prev->_M_next = &x; y._M_next = y._M_prev = &y; } }
}
// red-black trees are only used as finite maps here: an unbalanced binary search tree has the same observable behaviour
typedef _Rb_tree_node_base* BP; typedef const _Rb_tree_node_base* CBP;
static BP incr(BP x) { if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; } else { BP y = x->_M_parent; while (x == y->_M_right) { x = y; y = y->_M_parent; } if (x->_M_right != y) x = y; } return x; }
BP _Rb_tree_increment(BP x) noexcept { return incr(x); } CBP _Rb_tree_increment(CBP x) noexcept { return incr((BP)x); }
static BP decr(BP x) { if (x->_M_color == _S_red && x->_M_parent && x->_M_parent->_M_parent == x) return x->_M_right; if (x->_M_left) { BP y = x->_M_left; while (y->_M_right) y = y->_M_right; return y; } BP y = x->_M_parent; while (x == y->_M_left) { x = y; y = y->_M_parent; } return y; }
BP _Rb_tree_decrement(BP x) noexcept { return decr(x); } CBP _Rb_tree_decrement(CBP x) noexcept { return decr((BP)x); }
void _Rb_tree_insert_and_rebalance(const bool left, BP x, BP p, _Rb_tree_node_base& h) noexcept { x->_M_parent = p; x->_M_left = 0; x->_M_right = 0; x->_M_color = _S_black; if (left) { p->_M_left = x; if (p == &h) { h._M_parent = x; h._M_right = x; } else if (p == h._M_left) h._M_left = x; } else { p->_M_right = x; if (p == h._M_right) h._M_right = x; } }
BP _Rb_tree_rebalance_for_erase(BP const z, _Rb_tree_node_base& h) noexcept {
  BP nl = h._M_left, nr = h._M_right; if (nl == z) nl = incr(z); if (nr == z) nr = decr(z);
  BP r; if (!z->_M_left) r = z->_M_right; else if (!z->_M_right) r = z->_M_left; else { BP y = z->_M_right; while (y->_M_left) y = y->_M_left; if (y != z->_M_right) { y->_M_parent->_M_left = y->_M_right; if (y->_M_right) y->_M_right->_M_parent = y->_M_parent; y->_M_right = z->_M_right; z->_M_right->_M_parent = y; } y->_M_left = z->_M_left; z->_M_left->_M_parent = y; r = y; }
  if (r) r->_M_parent = z->_M_parent; if (h._M_parent == z) h._M_parent = r; else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = r; else z->_M_parent->_M_right = r;
  if (!h._M_parent) { h._M_left = h._M_right = &h; } else { h._M_left = nl; h._M_right = nr; } return z; }
}
extern "C" int snprintf(char* b, size_t n, const char*, ...) { if (n) b[0] = 0; return 0; }
extern "C" char* strerror_r(int, char* b, size_t n) { if (n) b[0] = 0; return b; }
extern "C" char* strerror(int) { return (char*)"error"; }
extern "C" int printf(const char*, ...) { return 0; }
extern "C" int puts(const char*) { return 0; }
extern "C" int memcmp(const void* a, const void* b, size_t n) { const unsigned char *x = (const unsigned char*)a, *y = (const unsigned char*)b; for (size_t i = 0; i < n; i++) if (x[i] != y[i]) return x[i] < y[i] ? -1 : 1; return 0; }
extern "C" const void* memchr_(const void* a, int c, size_t n) { const unsigned char* x = (const unsigned char*)a; for (size_t i = 0; i < n; i++) if (x[i] == (unsigned char)c) return x + i; return 0; }
