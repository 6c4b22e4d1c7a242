// Native replay runtime: the harness and /repo's sources are compiled to machine code (pthread_* renamed to the contract
// implementations of rt_pthread.cpp) and the verifier's counterexample is fed back value by value.
#include "../contracts/vc.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <csignal>
#include <new>
#include <string>
#include <unistd.h>
#include <ucontext.h>
#include <sanitizer/asan_interface.h>
struct Ent { char name[64]; uint64_t v; };
static Ent* lg; static size_t nlg, at; static const char* failed = 0; static uint64_t heapn;
extern "C" int vc_alloc_may_fail;
static uint64_t take(const char* n) {
  if (at >= nlg) return 0;
  if (strcmp(lg[at].name, n)) { printf("REPLAY mismatch: counterexample has %s, code asks for %s\n", lg[at].name, n); fflush(stdout); _exit(30); }
  return lg[at++].v;
}
extern "C" {
uint64_t vc_nondet_u64(const char* n) { return take(n); } uint32_t vc_nondet_u32(const char* n) { return (uint32_t)take(n); } uint8_t vc_nondet_u8(const char* n) { return (uint8_t)take(n); } bool vc_nondet_bool(const char* n) { return take(n) & 1; }
int64_t vc_range64(const char* n, int64_t lo, int64_t hi) { int64_t v = (int64_t)take(n); if (v < lo) v = lo; if (v > hi) v = hi; return v; }
void vc_assume(bool c) { if (!c) { printf("REPLAY assumption false\n"); fflush(stdout); _exit(31); } }
void vc_assert(bool c, const char* id) { if (!c) { printf("REPLAY violated %s\n", id); fflush(stdout); _exit(10); } }
void vc_fail(const char* id, const char* m) { printf("REPLAY violated %s: %s\n", id, m); fflush(stdout); _exit(10); }
void vc_cover(const char*) {} void vc_note(const char*) {} void vc_end() { printf("REPLAY path ended\n"); fflush(stdout); _exit(0); }
bool vc_fork(bool c) { return c; } uint64_t vc_concretize(uint64_t v) { return v; }
void vc_guard_add(void*, uint64_t, int*, const char*) {} void vc_guard_clear() {} void vc_guard_pause() {} void vc_guard_resume() {}
void vc_hooks_off() {} void vc_hooks_on() {}
void* vc_array_new(uint64_t, uint64_t, const char*) { printf("REPLAY unsupported\n"); fflush(stdout); _exit(32); }
bool vc_alive(const void* p) { return p && !__asan_address_is_poisoned(p); }
uint64_t vcx_heap_count() { return heapn; } void vcx_dump(const char* n, uint64_t v) { printf("%s = %llu\n", n, (unsigned long long)v); }
static ucontext_t co[16]; static char* stk[16]; static void (*cof[16])(void*); static void* coa[16]; static int cur;
static void tramp(int id) { cof[id](coa[id]); }
void vc_co_new(int id, void (*f)(void*), void* a) { getcontext(&co[id]); stk[id] = (char*)malloc(1 << 20); co[id].uc_stack.ss_sp = stk[id]; co[id].uc_stack.ss_size = 1 << 20; co[id].uc_link = 0; cof[id] = f; coa[id] = a; makecontext(&co[id], (void (*)())tramp, 1, id); }
void vc_merge() {} void vc_contract(const char*, void*) { printf("REPLAY unsupported\n"); fflush(stdout); _exit(32); }
void vc_co_switch(int id) { int o = cur; cur = id; swapcontext(&co[o], &co[id]); }
}
static bool fails(const char* n) { if (vc_alloc_may_fail && at < nlg && !strcmp(lg[at].name, n)) return take(n) & 1; return false; }
void* operator new(size_t n) { if (fails("alloc_fails")) throw std::bad_alloc(); heapn++; return malloc(n); } void* operator new[](size_t n) { return operator new(n); }
void operator delete(void* p) noexcept { if (p) { heapn--; free(p); } } void operator delete[](void* p) noexcept { operator delete(p); } void operator delete(void* p, size_t) noexcept { operator delete(p); } void operator delete[](void* p, size_t) noexcept { operator delete(p); }
static void sig(int s) { const char m[] = "REPLAY crashed\n"; (void)!write(1, m, sizeof m - 1); _exit(20); }
extern "C" void __attribute__((weak)) VC_ENTRY();
int main(int, char** v) {
  FILE* f = fopen(v[1], "r"); static Ent e[65536]; unsigned long long x; while (nlg < 65536 && fscanf(f, "%63s %llu", e[nlg].name, &x) == 2) { e[nlg].v = x; nlg++; } fclose(f); lg = e;
  signal(SIGABRT, sig); signal(SIGSEGV, sig); signal(SIGFPE, sig); signal(SIGBUS, sig); signal(SIGILL, sig); alarm(20);
  VC_ENTRY(); printf("REPLAY completed\n"); fflush(stdout); _exit(0);
}
extern "C" const char* __asan_default_options() { return "detect_leaks=0:exitcode=23:detect_stack_use_after_return=0:handle_segv=0:handle_abort=0"; }
