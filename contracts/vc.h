// Specification intrinsics understood by the verifier (engine/vc.cpp); the same functions have native
// definitions in engine/native.cpp, used only to replay a counterexample.
#pragma once
#include <cstdint>
#include <cstddef>
extern "C" {
uint64_t vc_nondet_u64(const char* name); uint32_t vc_nondet_u32(const char* name); uint8_t vc_nondet_u8(const char* name); bool vc_nondet_bool(const char* name);
int64_t vc_range64(const char* name, int64_t lo, int64_t hi); void vc_assume(bool c); void vc_assert(bool c, const char* id); void vc_cover(const char* id); [[noreturn]] void vc_end(); [[noreturn]] void vc_fail(const char* id, const char* msg);
void vc_note(const char* id); bool vc_fork(bool c); uint64_t vc_concretize(uint64_t v);
void vc_guard_add(void* base, uint64_t n, int* flag, const char* id); void vc_guard_clear(); void vc_guard_pause(); void vc_guard_resume();
void* vc_array_new(uint64_t elemsize, uint64_t len, const char* name); bool vc_alive(const void* p); uint64_t vcx_heap_count(); void vc_co_new(int id, void (*f)(void*), void* arg); void vc_co_switch(int id); void vc_merge(); void vc_contract(const char* callee, void* contract); void vcx_dump(const char* n, uint64_t v);
}
static inline int64_t vc_i64(const char* n) { return (int64_t)vc_nondet_u64(n); }
static inline int vc_i32(const char* n) { return (int)vc_nondet_u32(n); }
static inline int vc_range(const char* n, int lo, int hi) { int v = vc_i32(n); vc_assume(lo <= v && v <= hi); return v; }
// a nondeterministic choice that is always split into two paths
static inline bool vc_choose(const char* n) { return vc_fork(vc_nondet_bool(n)); }
#define ENTRY(name) extern "C" void entry_##name()
