// vc: verification-condition generator / symbolic executor for LLVM-18 bitcode with Z3 back end.
#include "expr.h"
#include <llvm/IR/Module.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/Dominators.h>
#include <llvm/IR/CFG.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/InlineAsm.h>
#include <llvm/Analysis/LoopInfo.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Demangle/Demangle.h>
#include <llvm/ADT/BitVector.h>
#include <z3.h>
#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <memory>
#include <set>
#include <algorithm>
#include <unistd.h>
#include <sys/resource.h>
using namespace llvm;
using std::string; using std::vector; using std::shared_ptr; using std::make_shared;
Ctx X;
static double now() { using namespace std::chrono; return duration<double>(steady_clock::now().time_since_epoch()).count(); }
struct Undecided { string why; };

// ---------------------------------------------------------------- values / memory
struct Val { E e = nullptr; shared_ptr<vector<Val>> agg; Val() {} Val(E x) : e(x) {} };
struct Obj { uint64_t base = 0, size = 0; bool ro = false, zero = false, heap = false, global = false, opaque = false; int akind = 0; string name;
  std::map<uint32_t, E> cells; E arr = nullptr; uint32_t es = 0; E len = nullptr; };
typedef shared_ptr<Obj> ObjP;

// ---------------------------------------------------------------- options / results
static struct { double timeout = 600; unsigned qtimeout = 15000; unsigned maxPaths = 2000000; unsigned loopBound = 40; bool bounded = false; bool verbose = false, trace = false, noSubs = false, noCross = false; string replayOut; } opt;
struct ObRec { uint64_t triv = 0, z3 = 0, alt = 0, failed = 0, undecided = 0; };
static std::map<string, ObRec> obs; static std::map<string, uint64_t> covers;
struct Violation { string id, where, msg; vector<string> stack; vector<std::pair<string, string>> log; bool exact; };
static vector<Violation> viols; static std::map<string, unsigned> undec;
static uint64_t nPaths = 0, nInstr = 0, nQueries = 0, nSub = 0, nBounded = 0; static double tSolver = 0, t0;
static std::set<string> repoFns;

// ---------------------------------------------------------------- solver
struct Z {
  Z3_context c; Z3_solver s; vector<E> stack; vector<Z3_ast> memo; vector<Z3_sort> sorts; Z3_sort aso[129]{};
  Z() { Z3_config cfg = Z3_mk_config(); Z3_set_param_value(cfg, "model", "true"); c = Z3_mk_context(cfg); Z3_set_error_handler(c, [](Z3_context c, Z3_error_code e) { fprintf(stderr, "z3 error %s\n", Z3_get_error_msg(c, e)); abort(); });
    s = Z3_mk_solver(c); Z3_solver_inc_ref(c, s); setTimeout(s, opt.qtimeout); sorts.assign(129, nullptr); }
  void setTimeout(Z3_solver s, unsigned ms) { Z3_params p = Z3_mk_params(c); Z3_params_inc_ref(c, p); Z3_params_set_uint(c, p, Z3_mk_string_symbol(c, "timeout"), ms); Z3_solver_set_params(c, s, p); Z3_params_dec_ref(c, p); }
  Z3_sort bv(unsigned w) { if (!sorts[w]) { sorts[w] = Z3_mk_bv_sort(c, w); Z3_inc_ref(c, (Z3_ast)sorts[w]); } return sorts[w]; }
  Z3_ast keep(Z3_ast a) { Z3_inc_ref(c, a); return a; }
  Z3_ast b2bv(Z3_ast b) { return Z3_mk_ite(c, b, Z3_mk_int(c, 1, bv(1)), Z3_mk_int(c, 0, bv(1))); }
  // 1-bit exprs are translated as Bool; tb = as bool, t = as bv
  std::unordered_map<E, Z3_ast> bm, vm;
  Z3_ast tb(E e) {
    assert(e->w == 1); auto it = bm.find(e); if (it != bm.end()) return it->second;
    Z3_ast r; Z3_ast ab[2];
    switch (e->k) {
    case K::CONST: r = e->c ? Z3_mk_true(c) : Z3_mk_false(c); break;
    case K::SYM: r = Z3_mk_const(c, Z3_mk_int_symbol(c, e->aux), Z3_mk_bool_sort(c)); break;
    case K::AND: ab[0] = tb(e->a); ab[1] = tb(e->b); r = Z3_mk_and(c, 2, ab); break;
    case K::OR: ab[0] = tb(e->a); ab[1] = tb(e->b); r = Z3_mk_or(c, 2, ab); break;
    case K::XOR: if (e->b == X.T) r = Z3_mk_not(c, tb(e->a)); else r = Z3_mk_xor(c, tb(e->a), tb(e->b)); break;
    case K::ADD: case K::SUB: r = Z3_mk_xor(c, tb(e->a), tb(e->b)); break;
    case K::MUL: ab[0] = tb(e->a); ab[1] = tb(e->b); r = Z3_mk_and(c, 2, ab); break;
    case K::EQ: r = e->a->w == 1 ? Z3_mk_iff(c, tb(e->a), tb(e->b)) : Z3_mk_eq(c, t(e->a), t(e->b)); break;
    case K::ULT: r = Z3_mk_bvult(c, t(e->a), t(e->b)); break; case K::ULE: r = Z3_mk_bvule(c, t(e->a), t(e->b)); break;
    case K::SLT: r = Z3_mk_bvslt(c, t(e->a), t(e->b)); break; case K::SLE: r = Z3_mk_bvsle(c, t(e->a), t(e->b)); break;
    case K::ITE: r = Z3_mk_ite(c, tb(e->a), tb(e->b), tb(e->d)); break;
    case K::EXTRACT: r = Z3_mk_eq(c, Z3_mk_extract(c, e->aux, e->aux, t(e->a)), Z3_mk_int(c, 1, bv(1))); break;
    default: r = Z3_mk_eq(c, traw(e), Z3_mk_int(c, 1, bv(1))); }
    return bm[e] = keep(r);
  }
  Z3_ast t(E e) { auto it = vm.find(e); if (it != vm.end()) return it->second; Z3_ast r = e->w == 1 && e->k != K::ASYM && e->k != K::ASTORE ? b2bv(tb(e)) : traw(e); return vm[e] = keep(r); }
  Z3_ast traw(E e) {
    switch (e->k) {
    case K::CONST: { if (e->w <= 64) return Z3_mk_unsigned_int64(c, (uint64_t)e->c, bv(e->w));
      Z3_ast lo = Z3_mk_unsigned_int64(c, (uint64_t)e->c, bv(64)), hi = Z3_mk_unsigned_int64(c, (uint64_t)(e->c >> 64), bv(e->w - 64)); return Z3_mk_concat(c, hi, lo); }
    case K::SYM: return Z3_mk_const(c, Z3_mk_int_symbol(c, e->aux), bv(e->w));
    case K::ASYM: return Z3_mk_const(c, Z3_mk_int_symbol(c, e->aux), Z3_mk_array_sort(c, bv(64), bv(e->w)));
    case K::ASTORE: return Z3_mk_store(c, t(e->a), t(e->b), t(e->d));
    case K::ASELECT: return Z3_mk_select(c, t(e->a), t(e->b));
    case K::ADD: return Z3_mk_bvadd(c, t(e->a), t(e->b)); case K::SUB: return Z3_mk_bvsub(c, t(e->a), t(e->b)); case K::MUL: return Z3_mk_bvmul(c, t(e->a), t(e->b));
    case K::UDIV: return Z3_mk_bvudiv(c, t(e->a), t(e->b)); case K::SDIV: return Z3_mk_bvsdiv(c, t(e->a), t(e->b)); case K::UREM: return Z3_mk_bvurem(c, t(e->a), t(e->b)); case K::SREM: return Z3_mk_bvsrem(c, t(e->a), t(e->b));
    case K::AND: return Z3_mk_bvand(c, t(e->a), t(e->b)); case K::OR: return Z3_mk_bvor(c, t(e->a), t(e->b)); case K::XOR: return Z3_mk_bvxor(c, t(e->a), t(e->b));
    case K::SHL: return Z3_mk_bvshl(c, t(e->a), t(e->b)); case K::LSHR: return Z3_mk_bvlshr(c, t(e->a), t(e->b)); case K::ASHR: return Z3_mk_bvashr(c, t(e->a), t(e->b));
    case K::CONCAT: return Z3_mk_concat(c, t(e->a), t(e->b)); case K::EXTRACT: return Z3_mk_extract(c, e->aux + e->w - 1, e->aux, t(e->a));
    case K::ZEXT: return Z3_mk_zero_ext(c, e->w - e->a->w, t(e->a)); case K::SEXT: return Z3_mk_sign_ext(c, e->w - e->a->w, t(e->a));
    case K::ITE: return Z3_mk_ite(c, tb(e->a), t(e->b), t(e->d));
    default: assert(0); return nullptr; }
  }
  void sync(const vector<E>& pc) {
    size_t n = 0; while (n < stack.size() && n < pc.size() && stack[n] == pc[n]) n++;
    if (n < stack.size()) { Z3_solver_pop(c, s, stack.size() - n); stack.resize(n); }
    for (; n < pc.size(); n++) { Z3_solver_push(c, s); Z3_solver_assert(c, s, tb(pc[n])); stack.push_back(pc[n]); }
  }
  void getModel(Z3_solver s, Ctx::Model& m) {
    Z3_model md = Z3_solver_get_model(c, s); Z3_model_inc_ref(c, md);
    unsigned n = Z3_model_get_num_consts(c, md);
    for (unsigned i = 0; i < n; i++) { Z3_func_decl f = Z3_model_get_const_decl(c, md, i); Z3_symbol sy = Z3_get_decl_name(c, f); if (Z3_get_symbol_kind(c, sy) != Z3_INT_SYMBOL) continue;
      uint32_t id = Z3_get_symbol_int(c, sy); if (id >= X.syms.size() || X.syms[id].arr) continue;
      Z3_ast v = Z3_model_get_const_interp(c, md, f); if (!v) continue;
      if (X.syms[id].w == 1) m[id] = Z3_get_bool_value(c, v) == Z3_L_TRUE;
      else if (X.syms[id].w <= 64) { uint64_t u = 0; Z3_get_numeral_uint64(c, v, &u); m[id] = u; }
      else { const char* str = Z3_get_numeral_string(c, v); u128 u = 0; for (; *str; str++) u = u * 10 + (*str - '0'); m[id] = u; } }
    Z3_model_dec_ref(c, md);
  }
  // 1 sat, 0 unsat, -1 unknown.  backend: 0 incremental z3, 1 fallback
  int check(const vector<E>& pc, E cond, Ctx::Model* m, int* backend = nullptr) {
    if (cond->isConst() && !cond->c) return 0;
    double t1 = now(); nQueries++; if (backend) *backend = 0;
    sync(pc); Z3_solver_push(c, s); Z3_solver_assert(c, s, tb(cond)); Z3_lbool r = Z3_solver_check(c, s); int res = r == Z3_L_TRUE ? 1 : r == Z3_L_FALSE ? 0 : -1;
    if (res == 1 && m) getModel(s, *m);
    if (res == -1) { res = fallback(m); if (backend) *backend = 1; }
    Z3_solver_pop(c, s, 1); tSolver += now() - t1;
    if (now() - t1 > 5 && opt.verbose) fprintf(stderr, "slow query %.1fs -> %d\n", now() - t1, res);
    return res;
  }
  int fallback(Ctx::Model* m) {
    Z3_ast_vector as = Z3_solver_get_assertions(c, s); Z3_ast_vector_inc_ref(c, as);
    Z3_tactic tt = Z3_mk_tactic(c, "qfaufbv"); Z3_tactic_inc_ref(c, tt); Z3_solver s2 = Z3_mk_solver_from_tactic(c, tt); Z3_solver_inc_ref(c, s2); setTimeout(s2, 60000);
    for (unsigned i = 0; i < Z3_ast_vector_size(c, as); i++) Z3_solver_assert(c, s2, Z3_ast_vector_get(c, as, i));
    Z3_lbool r = Z3_solver_check(c, s2); int res = r == Z3_L_TRUE ? 1 : r == Z3_L_FALSE ? 0 : -1; if (res == 1 && m) getModel(s2, *m);
    if (res == -1) { char fn[64]; snprintf(fn, sizeof fn, "/tmp/vcq.%d.smt2", getpid()); FILE* f = fopen(fn, "w"); fprintf(f, "(set-logic ALL)\n%s\n(check-sat)\n", [&] { string t; const char* p = Z3_solver_to_string(c, s2); t = p; return t; }().c_str()); fclose(f);
      const char* cmds[] = {"timeout 60 cvc5 --tlimit=58000", "timeout 60 z3-new -T:58"};
      for (auto cm : cmds) { string cmd = string(cm) + " " + fn + " 2>/dev/null"; FILE* p = popen(cmd.c_str(), "r"); char buf[64] = ""; if (p) { if (!fgets(buf, sizeof buf, p)) buf[0] = 0; pclose(p); }
        if (!strncmp(buf, "unsat", 5)) { res = 0; break; } if (!strncmp(buf, "sat", 3) && !m) { res = 1; break; } }
      unlink(fn); }
    Z3_solver_dec_ref(c, s2); Z3_tactic_dec_ref(c, tt); Z3_ast_vector_dec_ref(c, as); return res;
  }
};
static Z* zz;
// integer back end: bit-vectors as integers modulo 2^w with interval-directed normalisation
struct NoInt {};
struct IV { Z3_ast t; i128 lo, hi; };
struct ZI {
  struct Z* zp; Z3_sort IA = nullptr; std::unordered_map<E, vector<E>> selm;
  void sels(E e, std::unordered_set<E>& sn, vector<E>& v) { if (!e->hasArr || !sn.insert(e).second) return; if (e->k == K::ASELECT) v.push_back(e); for (E x : {e->a, e->b, e->d}) if (x) sels(x, sn, v); }
  const vector<E>& selsOf(E e) { auto it = selm.find(e); if (it != selm.end()) return it->second; vector<E> v; std::unordered_set<E> sn; sels(e, sn, v); return selm[e] = v; }
  Z3_context c; Z3_solver s; vector<E> stack; vector<vector<uint32_t>> lvl; std::unordered_set<uint32_t> bnd; Z3_sort I; std::unordered_map<E, IV> vm; std::unordered_map<E, Z3_ast> bm; std::unordered_set<E> bad;
  std::unordered_map<E, vector<uint32_t>> symc;
  ZI(Z* z) { c = z->c; Z3_symbol lg = Z3_mk_string_symbol(c, "QF_LIA"); s = Z3_mk_solver(c); (void)lg; Z3_solver_inc_ref(c, s); z->setTimeout(s, 150); zp = z; I = Z3_mk_int_sort(c); Z3_inc_ref(c, (Z3_ast)I); }
  Z3_ast k(Z3_ast a) { Z3_inc_ref(c, a); return a; }
  Z3_ast num(i128 v) { char b[48]; bool ng = v < 0; u128 u = ng ? (u128)(-v) : (u128)v; char* p = b + 47; *p = 0; do { *--p = '0' + (int)(u % 10); u /= 10; } while (u); if (ng) *--p = '-'; return Z3_mk_numeral(c, p, I); }
  static i128 P(unsigned w) { if (w > 96) throw NoInt(); return (i128)1 << w; }
  static void chk(i128 v) { if (v > ((i128)1 << 110) || v < -((i128)1 << 110)) throw NoInt(); }
  Z3_ast add2(Z3_ast a, Z3_ast b) { Z3_ast x[2] = {a, b}; return Z3_mk_add(c, 2, x); }
  static i128 fdiv(i128 a, i128 b) { i128 q = a / b; if ((a % b) && ((a < 0) != (b < 0))) q--; return q; }
  IV norm(IV v, unsigned w, bool sg) { i128 p = P(w), base = sg ? -(p / 2) : 0; i128 k0 = fdiv(v.lo - base, p), k1 = fdiv(v.hi - base, p);
    if (k0 == k1) { if (k0 == 0) return v; return {k(add2(v.t, num(-k0 * p))), v.lo - k0 * p, v.hi - k0 * p}; }
    if (k1 - k0 <= 3) { Z3_ast r = add2(v.t, num(-k1 * p)); for (i128 q = k1 - 1; q >= k0; q--) r = Z3_mk_ite(c, Z3_mk_lt(c, v.t, num(base + (q + 1) * p)), q ? add2(v.t, num(-q * p)) : v.t, r); return {k(r), base, base + p - 1}; }
    Z3_ast m = Z3_mk_mod(c, sg ? add2(v.t, num(p / 2)) : v.t, num(p)); if (sg) m = add2(m, num(base)); return {k(m), base, base + p - 1}; }
  IV t(E e) { auto it = vm.find(e); if (it != vm.end()) return it->second; if (bad.count(e)) throw NoInt(); try { IV r = t0(e); chk(r.lo); chk(r.hi); Z3_inc_ref(c, r.t); return vm[e] = r; } catch (NoInt&) { bad.insert(e); throw; } }
  IV t0(E e) {
    unsigned w = e->w; if (w == 1 && e->k != K::CONST) return {Z3_mk_ite(c, tb(e), num(1), num(0)), 0, 1}; i128 p = P(w);
    switch (e->k) {
    case K::CONST: { i128 v = (i128)e->c; if (v >= p / 2 && w > 1) v -= p; return {num(v), v, v}; }
    case K::SYM: { auto& si = X.syms[e->aux]; if (si.bounded) return {Z3_mk_const(c, Z3_mk_int_symbol(c, e->aux), I), si.lo, si.hi}; return {Z3_mk_const(c, Z3_mk_int_symbol(c, e->aux), I), 0, p - 1}; }
    case K::ADD: { IV a = t(e->a), b = t(e->b); return {add2(a.t, b.t), a.lo + b.lo, a.hi + b.hi}; }
    case K::SUB: { IV a = t(e->a), b = t(e->b); Z3_ast x[2] = {a.t, b.t}; return {Z3_mk_sub(c, 2, x), a.lo - b.hi, a.hi - b.lo}; }
    case K::MUL: { if (!e->b->isConst()) throw NoInt(); IV a = t(e->a); IV q = t(e->b); i128 m = q.lo; i128 am = std::max(a.lo < 0 ? -a.lo : a.lo, a.hi < 0 ? -a.hi : a.hi); i128 lim = (i128)1 << 108; i128 mm = m < 0 ? -m : m; if (mm && am > lim / mm) { a = norm(a, w, false); am = std::max(a.lo < 0 ? -a.lo : a.lo, a.hi); if (am > lim / mm) throw NoInt(); } Z3_ast x[2] = {q.t, a.t}; i128 l = a.lo * m, h = a.hi * m; if (l > h) std::swap(l, h); return {Z3_mk_mul(c, 2, x), l, h}; }
    case K::ASYM: { if (!IA) { IA = Z3_mk_array_sort(c, I, I); Z3_inc_ref(c, (Z3_ast)IA); } return {Z3_mk_const(c, Z3_mk_int_symbol(c, e->aux), IA), 0, 0}; }
    case K::ASTORE: { IV a = t(e->a), i = norm(t(e->b), e->b->w, false), v = norm(t(e->d), e->d->w, false); return {Z3_mk_store(c, a.t, i.t, v.t), 0, 0}; }
    case K::ASELECT: { IV a = t(e->a), i = norm(t(e->b), e->b->w, false); return {Z3_mk_select(c, a.t, i.t), 0, p - 1}; }
    case K::UDIV: case K::UREM: { if (!e->b->isConst() || !e->b->c) throw NoInt(); IV a = norm(t(e->a), w, false); Z3_ast d = num((i128)e->b->c); if (e->k == K::UDIV) return {Z3_mk_div(c, a.t, d), a.lo / (i128)e->b->c, a.hi / (i128)e->b->c}; return {Z3_mk_mod(c, a.t, d), 0, (i128)e->b->c - 1}; }
    case K::EXTRACT: { if (e->aux == 0) return t(e->a); IV a = norm(t(e->a), e->a->w, false); i128 d = P(e->aux); return {Z3_mk_div(c, a.t, num(d)), a.lo / d, a.hi / d}; }
    case K::ZEXT: return norm(t(e->a), e->a->w, false);
    case K::SEXT: return norm(t(e->a), e->a->w, true);
    case K::CONCAT: { IV a = norm(t(e->a), e->a->w, false), b = norm(t(e->b), e->b->w, false); i128 d = P(e->b->w); Z3_ast x[2] = {num(d), a.t}; return {add2(Z3_mk_mul(c, 2, x), b.t), a.lo * d + b.lo, a.hi * d + b.hi}; }
    case K::ITE: { IV a = t(e->b), b = t(e->d); return {Z3_mk_ite(c, tb(e->a), a.t, b.t), std::min(a.lo, b.lo), std::max(a.hi, b.hi)}; }
    case K::AND: { if (!e->b->isConst()) throw NoInt(); u128 m = e->b->c; unsigned sft = 0; while (!(m & 1)) { m >>= 1; sft++; } if (m & (m + 1)) throw NoInt(); IV a = norm(t(e->a), w, false); Z3_ast x = a.t; if (sft) x = Z3_mk_div(c, x, num(P(sft))); x = Z3_mk_mod(c, x, num((i128)(m + 1))); if (sft) { Z3_ast y[2] = {num(P(sft)), x}; x = Z3_mk_mul(c, 2, y); } return {x, 0, (i128)e->b->c}; }
    case K::XOR: { if (!e->b->isConst() || e->b->c != maskw(w)) throw NoInt(); IV a = t(e->a); Z3_ast x[2] = {num(-1), a.t}; return {Z3_mk_sub(c, 2, x), -1 - a.hi, -1 - a.lo}; }
    default: throw NoInt(); }
  }
  Z3_ast tb(E e) { auto it = bm.find(e); if (it != bm.end()) return it->second; if (bad.count(e)) throw NoInt(); try { Z3_ast r = tb0(e); return bm[e] = k(r); } catch (NoInt&) { bad.insert(e); throw; } }
  Z3_ast tb0(E e) { Z3_ast ab[2];
    switch (e->k) {
    case K::CONST: return e->c ? Z3_mk_true(c) : Z3_mk_false(c);
    case K::SYM: return Z3_mk_const(c, Z3_mk_int_symbol(c, e->aux), Z3_mk_bool_sort(c));
    case K::AND: case K::MUL: ab[0] = tb(e->a); ab[1] = tb(e->b); return Z3_mk_and(c, 2, ab);
    case K::OR: ab[0] = tb(e->a); ab[1] = tb(e->b); return Z3_mk_or(c, 2, ab);
    case K::XOR: case K::ADD: case K::SUB: if (e->b == X.T) return Z3_mk_not(c, tb(e->a)); return Z3_mk_xor(c, tb(e->a), tb(e->b));
    case K::ITE: return Z3_mk_ite(c, tb(e->a), tb(e->b), tb(e->d));
    case K::EQ: { if (e->a->w == 1) return Z3_mk_iff(c, tb(e->a), tb(e->b)); unsigned w = e->a->w; IV a = t(e->a), b = t(e->b); i128 p = P(w); if (a.hi - b.lo < p && b.hi - a.lo < p) return Z3_mk_eq(c, a.t, b.t); a = norm(a, w, false); b = norm(b, w, false); return Z3_mk_eq(c, a.t, b.t); }
    case K::ULT: case K::ULE: { unsigned w = e->a->w; IV a = norm(t(e->a), w, false), b = norm(t(e->b), w, false); return e->k == K::ULT ? Z3_mk_lt(c, a.t, b.t) : Z3_mk_le(c, a.t, b.t); }
    case K::SLT: case K::SLE: { unsigned w = e->a->w; IV a = norm(t(e->a), w, true), b = norm(t(e->b), w, true); return e->k == K::SLT ? Z3_mk_lt(c, a.t, b.t) : Z3_mk_le(c, a.t, b.t); }
    case K::EXTRACT: { IV a = t(e->a); Z3_ast x = a.t; if (e->aux) { a = norm(a, e->a->w, false); x = Z3_mk_div(c, a.t, num(P(e->aux))); } return Z3_mk_eq(c, Z3_mk_mod(c, x, num(2)), num(1)); }
    default: throw NoInt(); }
  }
  const vector<uint32_t>& symsOf(E e) { auto it = symc.find(e); if (it != symc.end()) return it->second; vector<uint32_t> v; std::unordered_set<E> sn; X.collect(e, sn, v); return symc[e] = v; }
  void bounds(E e, vector<uint32_t>& added) { for (auto i : symsOf(e)) { auto& si = X.syms[i]; if (si.arr || si.w == 1 || si.w > 96) continue; if (!bnd.insert(i).second) continue; added.push_back(i); Z3_ast v = Z3_mk_const(c, Z3_mk_int_symbol(c, i), I); i128 lo = si.bounded ? si.lo : 0, hi = si.bounded ? si.hi : P(si.w) - 1; Z3_solver_assert(c, s, Z3_mk_le(c, num(lo), v)); Z3_solver_assert(c, s, Z3_mk_le(c, v, num(hi))); } }
  bool partial = false; vector<char> part;
  void push(E e) { Z3_solver_push(c, s); lvl.emplace_back(); bool ok = true; try { Z3_ast a = tb(e); bounds(e, lvl.back()); if (e->hasArr) for (E x : selsOf(e)) { IV v = t(x); Z3_solver_assert(c, s, Z3_mk_le(c, num(0), v.t)); Z3_solver_assert(c, s, Z3_mk_le(c, v.t, num(v.hi))); } Z3_solver_assert(c, s, a); } catch (NoInt&) { ok = false; } stack.push_back(e); part.push_back(!ok); }
  void pop() { for (auto i : lvl.back()) bnd.erase(i); lvl.pop_back(); Z3_solver_pop(c, s, 1); stack.pop_back(); part.pop_back(); }
  int check(const vector<E>& pc, E cond, Ctx::Model* m) {
    size_t n = 0; while (n < stack.size() && n < pc.size() && stack[n] == pc[n]) n++; while (stack.size() > n) pop(); for (; n < pc.size(); n++) push(pc[n]);
    push(cond); bool condBad = part.back(); int res = -1;
    if (!condBad) { double q0 = now(); Z3_lbool r = Z3_solver_check(c, s); Z3_solver used = s; if (r == Z3_L_UNDEF) { Z3_solver f = Z3_mk_solver(c); Z3_solver_inc_ref(c, f); zp->setTimeout(f, 10000); Z3_ast_vector as = Z3_solver_get_assertions(c, s); Z3_ast_vector_inc_ref(c, as); for (unsigned i = 0; i < Z3_ast_vector_size(c, as); i++) Z3_solver_assert(c, f, Z3_ast_vector_get(c, as, i)); Z3_ast_vector_dec_ref(c, as); r = Z3_solver_check(c, f); used = f; } if (getenv("VC_DUMP") && now() - q0 > 2) { static int n = 0; char fn[64]; snprintf(fn, sizeof fn, "/tmp/q%d.smt2", n++); FILE* f = fopen(fn, "w"); fprintf(f, "%s\n(check-sat)\n", Z3_solver_to_string(c, s)); fclose(f); } if (r == Z3_L_FALSE) res = 0; else if (r == Z3_L_TRUE) { Ctx::Model md; get(md, used); std::unordered_map<E, u128> memo; bool good = true; u128 v; for (auto e : stack) if (!e->hasArr && (!X.eval(e, md, memo, v) || !(v & 1))) { good = false; break; } if (good) { res = 1; if (m) *m = md; } } if (used != s) Z3_solver_dec_ref(c, used); }
    if (res == -1 && opt.verbose) { int np = 0; for (char q : part) np += q; fprintf(stderr, "int solver gave up: condBad=%d partial=%d\n", condBad, np); static int once = 0; for (size_t i = 0; i < stack.size(); i++) if (part[i] && once++ < 6) { std::function<void(E, int)> pr = [&](E e, int d) { if (d > 6) { fprintf(stderr, "."); return; } fprintf(stderr, "(%d:%d", (int)e->k, e->w); if (e->isConst()) fprintf(stderr, "=%llx", (unsigned long long)e->c); if (e->k == K::SYM) fprintf(stderr, "%s", X.syms[e->aux].name.c_str()); if (e->a) pr(e->a, d + 1); if (e->b) pr(e->b, d + 1); if (e->d) pr(e->d, d + 1); fprintf(stderr, ")"); }; pr(stack[i], 0); fprintf(stderr, "\n"); } }
    pop(); return res;
  }
  void get(Ctx::Model& m, Z3_solver s) { Z3_model md = Z3_solver_get_model(c, s); Z3_model_inc_ref(c, md); unsigned n = Z3_model_get_num_consts(c, md);
    for (unsigned i = 0; i < n; i++) { Z3_func_decl f = Z3_model_get_const_decl(c, md, i); Z3_symbol sy = Z3_get_decl_name(c, f); if (Z3_get_symbol_kind(c, sy) != Z3_INT_SYMBOL) continue; uint32_t id = Z3_get_symbol_int(c, sy); if (id >= X.syms.size() || X.syms[id].arr) continue; Z3_ast v = Z3_model_get_const_interp(c, md, f); if (!v) continue;
      if (X.syms[id].w == 1) m[id] = Z3_get_bool_value(c, v) == Z3_L_TRUE; else { const char* str = Z3_get_numeral_string(c, v); bool ng = *str == '-'; if (ng) str++; i128 u = 0; for (; *str; str++) u = u * 10 + (*str - '0'); if (ng) u = -u; m[id] = (u128)u & maskw(X.syms[id].w); } }
    Z3_model_dec_ref(c, md); }
};
static ZI* zi; static uint64_t nIntQ = 0;
static int Zcheck(const vector<E>& pc, E cond, Ctx::Model* m, int* be = nullptr) {
  if (cond->isConst() && !cond->c) return 0;
  bool hard = cond->hard; if (!hard) for (auto e : pc) if (e->hard) { hard = true; break; }
  if (hard) { double t1 = now(); nQueries++; nIntQ++; int r = zi->check(pc, cond, m); tSolver += now() - t1; if (opt.verbose && now() - t1 > 3) fprintf(stderr, "int query %.1fs -> %d\n", now() - t1, r); if (r >= 0) { if (be) *be = 2; return r; } }
  return zz->check(pc, cond, m, be);
}

// ---------------------------------------------------------------- function info
struct FnInfo { Function* f; DenseMap<const Value*, unsigned> idx; unsigned n = 0; DenseMap<const BasicBlock*, BitVector> headerLive, liveIn; std::unordered_map<const Instruction*, BitVector> liveAt; std::set<const BasicBlock*> headers; std::set<std::pair<const BasicBlock*, const BasicBlock*>> back; string name; bool verif = false, repo = false; bool loopsDone = false; };
static std::map<const Function*, FnInfo*> fns;
static Module* M; static const DataLayout* DL;
static string fileOf(const Function* f) { if (auto* sp = f->getSubprogram()) { string d = sp->getDirectory().str(), n = sp->getFilename().str(); return !n.empty() && n[0] == '/' ? n : d + "/" + n; } return ""; }
static FnInfo* info(Function* f) {
  auto& p = fns[f]; if (p) return p; p = new FnInfo; p->f = f; p->name = demangle(f->getName().str());
  string fl = fileOf(f); p->verif = fl.empty() || fl.find("/verif/") != string::npos || fl.find("/contracts/") != string::npos; p->repo = fl.find("boost/thread") != string::npos || fl.find("/repo/") != string::npos;
  if (p->verif) p->repo = false;
  for (auto& a : f->args()) p->idx[&a] = p->n++;
  for (auto& b : *f) for (auto& i : b) if (!i.getType()->isVoidTy()) p->idx[&i] = p->n++;
  return p;
}
static void loops(FnInfo* fi) {
  if (fi->loopsDone) return; fi->loopsDone = true; DominatorTree dt(*fi->f); bool any = false;
  for (auto& b : *fi->f) for (auto* s : successors(&b)) if (dt.dominates(s, &b)) { fi->headers.insert(s); fi->back.insert({&b, s}); any = true; }
  (void)any;
  // liveness (block level)
  DenseMap<const BasicBlock*, BitVector> in, use, def;
  for (auto& b : *fi->f) { BitVector u(fi->n), d(fi->n); for (auto& i : b) { if (!isa<PHINode>(i)) for (auto& o : i.operands()) { auto it = fi->idx.find(o.get()); if (it != fi->idx.end() && !d[it->second]) u.set(it->second); } auto it = fi->idx.find(&i); if (it != fi->idx.end()) d.set(it->second); } use[&b] = u; def[&b] = d; in[&b] = BitVector(fi->n); }
  bool ch = true; while (ch) { ch = false; for (auto& b : *fi->f) { BitVector o(fi->n); for (auto* s : successors(&b)) { BitVector t = in[s]; for (auto& ph : s->phis()) { t.reset(fi->idx[&ph]); } o |= t; for (auto& ph : s->phis()) { auto it = fi->idx.find(ph.getIncomingValueForBlock(&b)); if (it != fi->idx.end()) o.set(it->second); } }
      BitVector n = o; n.reset(def[&b]); n |= use[&b]; for (auto& ph : b.phis()) n.reset(fi->idx[&ph]); if (n != in[&b]) { in[&b] = n; ch = true; } } }
  fi->liveIn = in;
  for (auto* h : fi->headers) { BitVector l = in[h]; for (auto& ph : h->phis()) l.set(fi->idx[&ph]); fi->headerLive[h] = l; }
}

// ---------------------------------------------------------------- state
struct State; struct Snap { const BasicBlock* h; shared_ptr<State> st; uint64_t ev; shared_ptr<Snap> next; };
struct Frame { FnInfo* fi; BasicBlock *bb, *prev = nullptr; BasicBlock::iterator it; vector<Val> regs; CallBase* call = nullptr; vector<uint64_t> allocas; uint64_t stackMark; shared_ptr<Snap> snaps; unsigned loopCount = 0; };
typedef shared_ptr<Frame> FrameP;
struct LogN { string name; E e; shared_ptr<LogN> next; };
struct Stack { vector<FrameP> fr; uint64_t stackTop; };
struct State {
  vector<Stack> stacks; unsigned cur = 0; int hookDone = -1;
  vector<FrameP> fr; std::map<uint64_t, ObjP> mem; vector<E> pc; std::unordered_set<E> pcset; shared_ptr<Ctx::Model> model; shared_ptr<LogN> log; uint64_t heapNext, stackTop; uint64_t ev = 0; bool widened = false;
  vector<std::tuple<uint64_t, uint64_t, uint64_t, string>> guards; int guardPause = 0; int hookOff = 0;
  shared_ptr<LogN> notes;
  Frame& top() { auto& p = fr.back(); if (p.use_count() > 1) p = make_shared<Frame>(*p); return *p; }
};
static vector<shared_ptr<State>> work; static std::unordered_map<const BasicBlock*, vector<shared_ptr<Snap>>> gsnaps;
static std::map<uint64_t, ObjP> globalObjs; static std::map<const Value*, uint64_t> gaddr; static std::map<uint64_t, Function*> faddr;
static uint64_t gnext = 0x10000000;
static const uint64_t HEAP0 = 0x600000000000ull, STACK0 = 0x7f0000000000ull;
struct PathEnd {};

static string curLoc(State& s) { for (size_t i = s.fr.size(); i-- > 0;) { auto& f = *s.fr[i]; const Instruction* I = &*f.it; if (auto& dl = I->getDebugLoc()) { auto* sc = dl->getScope(); return (sc ? sc->getFilename().str() : "?") + ":" + std::to_string(dl.getLine()); } } return "?"; }
static vector<string> stackTrace(State& s) { vector<string> r; for (size_t i = s.fr.size(); i-- > 0;) { auto& f = *s.fr[i]; const Instruction* I = &*f.it; string l; if (auto& dl = I->getDebugLoc()) { auto* sc = dl->getScope(); l = (sc ? sc->getFilename().str() : "?") + ":" + std::to_string(dl.getLine()); } string n = f.fi->name; if (n.size() > 160) n = n.substr(0, 160) + "..."; r.push_back(n + " @ " + l); } return r; }
static string u128s(u128 v) { char b[64]; if (v >> 64) snprintf(b, sizeof b, "0x%llx%016llx", (unsigned long long)(v >> 64), (unsigned long long)v); else snprintf(b, sizeof b, "%llu", (unsigned long long)v); return b; }
static void violation(State& s, const string& id, const string& msg, const Ctx::Model& m) {
  obs[id].failed++;
  for (auto& v : viols) if (v.id == id && (viols.size() > 200 || v.where == curLoc(s))) return;
  Violation v; v.id = id; v.msg = msg; v.where = curLoc(s); v.stack = stackTrace(s); v.exact = !s.widened;
  for (auto n = s.log; n; n = n->next) { u128 x = 0; std::unordered_map<E, u128> memo; if (!X.eval(n->e, m, memo, x)) x = 0; v.log.push_back({n->name, u128s(x)}); }
  std::reverse(v.log.begin(), v.log.end()); viols.push_back(v);
  if (opt.verbose) { fprintf(stderr, "VIOL %s: %s\n", id.c_str(), msg.c_str()); for (auto& x : v.stack) fprintf(stderr, "   %s\n", x.c_str()); for (auto& l : v.log) fprintf(stderr, "     %s=%s\n", l.first.c_str(), l.second.c_str()); }
}
static bool evalM(State& s, E c, bool& out) { if (!s.model) return false; std::unordered_map<E, u128> memo; u128 v; if (!X.eval(c, *s.model, memo, v)) return false; out = v & 1; return true; }
static void assume(State& s, E c) { // c known feasible (or caller does not care)
  if (c->isConst()) return; if (s.pcset.count(c)) return;
  if (c->k == K::AND) { assume(s, c->a); assume(s, c->b); return; }
  s.pc.push_back(c); s.pcset.insert(c);
}
// sat(pc & c); on sat the model is stored in *mo
static int sat(State& s, E c, shared_ptr<Ctx::Model>* mo = nullptr, int* be = nullptr) {
  if (be) *be = -1;
  if (c->isConst()) { if (c->c && mo) { if (!s.model) { auto m = make_shared<Ctx::Model>(); int r = Zcheck(s.pc, X.T, m.get()); if (r == 1) s.model = m; else if (r == 0) return 0; } *mo = s.model; } return c->c ? 1 : 0; }
  if (s.pcset.count(X.notb(c))) return 0;
  bool b; if (evalM(s, c, b) && b) { if (mo) *mo = s.model; return 1; }
  auto m = make_shared<Ctx::Model>(); int r = Zcheck(s.pc, c, m.get(), be); if (r == 1 && mo) *mo = m; return r;
}
static void undecided(State& s, const string& why) { undec[why + " at " + curLoc(s)]++; }
static shared_ptr<State> forkState(State& s) { return make_shared<State>(s); }
// decides a branch: returns true/false for the current state; pushes the other side
static bool branch(State& s, E c) {
  if (c->isConst()) return c->c; if (s.pcset.count(c)) return true; if (s.pcset.count(X.notb(c))) return false;
  shared_ptr<Ctx::Model> mt, mf; int t = sat(s, c, &mt), f = sat(s, X.notb(c), &mf);
  if (t == -1 || f == -1) { undecided(s, "solver unknown on branch"); if (t == -1) t = 1; if (f == -1) f = 1; }
  if (!t && !f) throw PathEnd(); if (t && !f) return true; if (!t) return false;
  s.ev++;
  auto o = forkState(s); assume(*o, X.notb(c)); o->model = mf; work.push_back(o);
  assume(s, c); s.model = mt; return true;
}
// pick a concrete value for e, forking siblings (instruction must be re-executable)
static E concretize(State& s, E e, unsigned limit = 64) {
  if (e->isConst()) return e;
  shared_ptr<Ctx::Model> m = s.model; if (!m || e->hasArr) { m = make_shared<Ctx::Model>(); E t = X.sym(e->w, "conc"); auto pc = s.pc; pc.push_back(X.mk(K::EQ, 1, t, e)); int r = Zcheck(pc, X.T, m.get()); if (r != 1) { if (r == 0) throw PathEnd(); throw Undecided{"concretize"}; }
    E v = X.con(e->w, (*m)[t->aux]); if (branch(s, X.eq(e, v))) return v; throw Undecided{"concretize2"}; }
  std::unordered_map<E, u128> memo; u128 v; X.eval(e, *m, memo, v); E cv = X.con(e->w, v); E c = X.eq(e, cv);
  if (c->isConst()) { if (c->c) return cv; throw Undecided{"concretize3"}; }
  shared_ptr<Ctx::Model> mf; int f = sat(s, X.notb(c), &mf); if (f == -1) undecided(s, "concretize unknown");
  if (f == 1) { s.ev++; auto o = forkState(s); assume(*o, X.notb(c)); o->model = mf; work.push_back(o); }
  assume(s, c); return cv;
}
// obligation: cond must hold. Returns when the path can continue under cond.
static void require(State& s, E cond, const string& id, const string& msg) {
  auto& o = obs[id];
  if (cond->isConst() && cond->c) { o.triv++; return; } if (s.pcset.count(cond)) { o.triv++; return; }
  shared_ptr<Ctx::Model> m; int be; int r = sat(s, X.notb(cond), &m, &be);
  if (r == 0) { if (be == 1) o.alt++; else o.z3++; return; }
  if (r == -1) { o.undecided++; undecided(s, "obligation " + id); return; }
  if (!m) { m = make_shared<Ctx::Model>(); }
  violation(s, id, msg, *m);
  if (cond->isConst()) throw PathEnd();
  shared_ptr<Ctx::Model> mt; int t = sat(s, cond, &mt); if (t == 0) throw PathEnd(); assume(s, cond); if (mt) s.model = mt;
}
[[noreturn]] static void fail(State& s, const string& id, const string& msg) { require(s, X.F, id, msg); throw PathEnd(); }

// ---------------------------------------------------------------- memory ops
static ObjP* findObj(State& s, uint64_t a, bool& isGlobal) {
  isGlobal = false; auto it = s.mem.upper_bound(a); if (it != s.mem.begin()) { --it; if (a - it->second->base < std::max<uint64_t>(it->second->size, 1)) return &it->second; }
  auto g = globalObjs.upper_bound(a); if (g != globalObjs.begin()) { --g; if (a - g->second->base < std::max<uint64_t>(g->second->size, 1)) { isGlobal = true; return &g->second; } }
  return nullptr;
}
static Obj& wr(State& s, uint64_t a) { bool g; ObjP* p = findObj(s, a, g); if (g) { auto n = make_shared<Obj>(**p); s.mem[n->base] = n; return *n; } if (p->use_count() > 1) *p = make_shared<Obj>(**p); return **p; }
static void rawStore(Obj& o, uint32_t off, E v) {
  unsigned n = v->w / 8; assert(v->w % 8 == 0);
  auto it = o.cells.lower_bound(off);
  if (it != o.cells.begin()) { auto p = std::prev(it); unsigned pn = p->second->w / 8; if (p->first + pn > off) { E old = p->second; uint32_t po = p->first; p->second = X.extract(old, 0, (off - po) * 8); if (po + pn > off + n) o.cells[off + n] = X.extract(old, (off + n - po) * 8, (po + pn - off - n) * 8); } }
  it = o.cells.lower_bound(off);
  while (it != o.cells.end() && it->first < off + n) { E old = it->second; uint32_t po = it->first; unsigned pn = old->w / 8; it = o.cells.erase(it); if (po + pn > off + n) { o.cells[off + n] = X.extract(old, (off + n - po) * 8, (po + pn - off - n) * 8); break; } }
  o.cells[off] = v;
}
static E rawLoad(State& s, uint64_t base, const Obj* o, uint32_t off, unsigned n) {
  auto it = o->cells.find(off); if (it != o->cells.end() && it->second->w == n * 8) return it->second;
  E r = nullptr; uint32_t i = off; const Obj* cur = o;
  while (i < off + n) {
    auto jt = cur->cells.upper_bound(i); E piece = nullptr; uint32_t len = 0;
    if (jt != cur->cells.begin()) { auto p = std::prev(jt); uint32_t pn = p->second->w / 8; if (p->first + pn > i) { len = std::min(p->first + pn, off + n) - i; piece = X.extract(p->second, (i - p->first) * 8, len * 8); } }
    if (!piece) { uint32_t end = jt == cur->cells.end() ? off + n : std::min<uint32_t>(jt->first, off + n); len = end - i;
      if (cur->zero) { if (len > 16) len = 16; piece = X.con(len * 8, 0); } else { if (len > 8) len = 8; piece = X.sym(len * 8, "undef"); s.ev++; Obj& w = wr(s, base); rawStore(w, i, piece); cur = &w; } }
    r = r ? X.concat(piece, r) : piece; i += len;
  }
  return r;
}
struct Loc { ObjP* o; uint64_t base; uint64_t off; E aidx; };
static string hx(uint64_t v) { char b[32]; snprintf(b, sizeof b, "0x%llx", (unsigned long long)v); return b; }
static void flat(E e, vector<E>& t) { if (e->k == K::ADD) { flat(e->a, t); flat(e->b, t); } else t.push_back(e); }
static Loc access(State& s, E& addr, unsigned n, bool write) {
  if (!addr->isConst()) { // array object?
    vector<E> ts; flat(addr, ts); uint64_t c = 0; vector<E> rest; for (auto t : ts) if (t->isConst()) c += t->u64(); else rest.push_back(t);
    bool g; ObjP* p = c ? findObj(s, c, g) : nullptr;
    if (p && (*p)->arr) { Obj& o = **p; uint64_t off = c - o.base; uint32_t es = o.es; if (off % es || n != es) throw Undecided{"array access shape"}; E idx = X.con(64, off / es);
      for (auto t : rest) { E q; if (es == 1) q = t; else if (t->k == K::MUL && t->b->isConst() && (i128)sx(t->b->c, 64) % es == 0) q = X.mul(t->a, X.con(64, (u128)(sx(t->b->c, 64) / (i128)es))); else if (t->k == K::ITE && t->b->isConst() && t->d->isConst() && t->b->u64() % es == 0 && t->d->u64() % es == 0) q = X.ite(t->a, X.con(64, t->b->u64() / es), X.con(64, t->d->u64() / es)); else q = nullptr; 
        if (!q) { addr = concretize(s, addr); return access(s, addr, n, write); } idx = X.add(idx, q); }
      uint64_t base = o.base; require(s, X.ult(idx, o.len), "mem.bounds", "array index out of bounds of " + o.name);
      p = findObj(s, c, g); return {p, base, 0, idx}; }
    addr = concretize(s, addr);
  }
  uint64_t a = addr->u64();
  if (a < 4096) fail(s, "mem.null", string("null pointer dereference (") + (write ? "write" : "read") + ")");
  bool g; ObjP* p = findObj(s, a, g); if (!p) fail(s, "mem.invalid", string("access to freed or invalid memory ") + hx(a) + (write ? " (write)" : " (read)"));
  Obj& o = **p; if (o.opaque) throw Undecided{"access to opaque external object " + o.name};
  if (o.arr) { uint64_t off = a - o.base; if (off % o.es || n != o.es) throw Undecided{"array access shape"}; E idx = X.con(64, off / o.es); require(s, X.ult(idx, o.len), "mem.bounds", "array index out of bounds of " + o.name); p = findObj(s, a, g); return {p, o.base, 0, idx}; }
  if (a - o.base + n > o.size) fail(s, "mem.bounds", "out of bounds access of " + o.name);
  obs["mem.bounds"].triv++;
  if (write && o.ro) fail(s, "mem.readonly", "write to constant " + o.name);
  return {p, o.base, a - o.base, nullptr};
}
static E load(State& s, E addr, unsigned bits) {
  unsigned n = (bits + 7) / 8; Loc l = access(s, addr, n, false); Obj& o = **l.o;
  E r; if (l.aidx) r = X.aselect(o.arr, l.aidx); else r = rawLoad(s, l.base, &o, l.off, n);
  return bits == n * 8 ? r : X.extract(r, 0, bits);
}
static void store(State& s, E addr, E v) {
  unsigned n = (v->w + 7) / 8; if (v->w != n * 8) v = X.zext(v, n * 8); Loc l = access(s, addr, n, true); Obj& o = wr(s, l.base);
  if (l.aidx) o.arr = X.astore(o.arr, l.aidx, v); else rawStore(o, l.off, v);
}
static uint64_t heapAlloc(State& s, uint64_t sz, const string& nm, int akind) { auto o = make_shared<Obj>(); o->base = s.heapNext; o->size = sz; o->heap = true; o->akind = akind; o->name = nm; s.heapNext += ((sz + 15) & ~15ull) + 32; s.mem[o->base] = o; return o->base; }
static string cstr(State& s, E p) { if (!p->isConst()) throw Undecided{"symbolic string"}; uint64_t a = p->u64(); string r; if (!a) return r; for (;; a++) { bool g; ObjP* o = findObj(s, a, g); if (!o) break; E c = rawLoad(s, (*o)->base, o->get(), a - (*o)->base, 1); if (!c->isConst()) throw Undecided{"symbolic string"}; if (!c->c) break; r += (char)c->u64(); } return r; }

// ---------------------------------------------------------------- constants and globals
static uint64_t addrOf(const GlobalValue* gv);
static Val constVal(const Constant* c);
static unsigned bitsOf(Type* t) { if (t->isPointerTy()) return 64; return (unsigned)DL->getTypeSizeInBits(t).getFixedValue(); }
static Val zeroOf(Type* t) { if (auto* st = dyn_cast<StructType>(t)) { Val v; v.agg = make_shared<vector<Val>>(); for (auto* e : st->elements()) v.agg->push_back(zeroOf(e)); return v; } if (auto* at = dyn_cast<ArrayType>(t)) { Val v; v.agg = make_shared<vector<Val>>(); for (unsigned i = 0; i < at->getNumElements(); i++) v.agg->push_back(zeroOf(at->getElementType())); return v; } return X.con(bitsOf(t), 0); }
static int64_t gepConst(const GEPOperator* g) { APInt off(64, 0); if (!g->accumulateConstantOffset(*DL, off)) throw Undecided{"const gep"}; return off.getSExtValue(); }
static E bin(unsigned op, E a, E b) { switch (op) { case Instruction::Add: return X.add(a, b); case Instruction::Sub: return X.sub(a, b); case Instruction::Mul: return X.mul(a, b); case Instruction::And: return X.and_(a, b); case Instruction::Or: return X.or_(a, b); case Instruction::Xor: return X.xor_(a, b); case Instruction::Shl: return X.shl(a, b); case Instruction::LShr: return X.lshr(a, b); case Instruction::AShr: return X.ashr(a, b); case Instruction::UDiv: return X.udiv(a, b); case Instruction::SDiv: return X.sdiv(a, b); case Instruction::URem: return X.urem(a, b); case Instruction::SRem: return X.srem(a, b); } throw Undecided{"binop"}; }
static E icmp(CmpInst::Predicate p, E a, E b) { switch (p) { case CmpInst::ICMP_EQ: return X.eq(a, b); case CmpInst::ICMP_NE: return X.ne(a, b); case CmpInst::ICMP_ULT: return X.ult(a, b); case CmpInst::ICMP_ULE: return X.ule(a, b); case CmpInst::ICMP_UGT: return X.ult(b, a); case CmpInst::ICMP_UGE: return X.ule(b, a); case CmpInst::ICMP_SLT: return X.slt(a, b); case CmpInst::ICMP_SLE: return X.sle(a, b); case CmpInst::ICMP_SGT: return X.slt(b, a); case CmpInst::ICMP_SGE: return X.sle(b, a); default: throw Undecided{"icmp"}; } }
static E castE(unsigned op, E v, unsigned w) { switch (op) { case Instruction::Trunc: return X.extract(v, 0, w); case Instruction::ZExt: return X.zext(v, w); case Instruction::SExt: return X.sext(v, w); case Instruction::PtrToInt: case Instruction::IntToPtr: return w <= v->w ? X.extract(v, 0, w) : X.zext(v, w); case Instruction::BitCast: case Instruction::AddrSpaceCast: return v; } throw Undecided{"cast"}; }
static Val constVal(const Constant* c) {
  if (auto* ci = dyn_cast<ConstantInt>(c)) { const APInt& a = ci->getValue(); u128 v = a.getRawData()[0]; if (a.getNumWords() > 1) v |= (u128)a.getRawData()[1] << 64; return X.con(a.getBitWidth(), v); }
  if (auto* cf = dyn_cast<ConstantFP>(c)) { APInt a = cf->getValueAPF().bitcastToAPInt(); u128 v = a.getRawData()[0]; if (a.getNumWords() > 1) v |= (u128)a.getRawData()[1] << 64; return X.con(a.getBitWidth(), v); }
  if (isa<ConstantPointerNull>(c)) return X.con(64, 0);
  if (auto* gv = dyn_cast<GlobalValue>(c)) return X.con(64, addrOf(gv));
  if (isa<UndefValue>(c) || isa<ConstantAggregateZero>(c)) return zeroOf(c->getType());
  if (auto* ca = dyn_cast<ConstantAggregate>(c)) { Val v; v.agg = make_shared<vector<Val>>(); for (auto& o : ca->operands()) v.agg->push_back(constVal(cast<Constant>(o.get()))); return v; }
  if (auto* cd = dyn_cast<ConstantDataSequential>(c)) { Val v; v.agg = make_shared<vector<Val>>(); for (unsigned i = 0; i < cd->getNumElements(); i++) v.agg->push_back(constVal(cd->getElementAsConstant(i))); return v; }
  if (auto* ce = dyn_cast<ConstantExpr>(c)) {
    if (auto* g = dyn_cast<GEPOperator>(ce)) return X.add(constVal(cast<Constant>(g->getPointerOperand())).e, X.con(64, (u128)(i128)gepConst(g)));
    if (ce->isCast()) return castE(ce->getOpcode(), constVal(ce->getOperand(0)).e, bitsOf(ce->getType()));
    if (ce->getOpcode() == Instruction::ICmp) return icmp((CmpInst::Predicate)ce->getPredicate(), constVal(ce->getOperand(0)).e, constVal(ce->getOperand(1)).e);
    if (ce->getOpcode() == Instruction::Select) { E cnd = constVal(ce->getOperand(0)).e; return cnd->c ? constVal(ce->getOperand(1)) : constVal(ce->getOperand(2)); }
    return bin(ce->getOpcode(), constVal(ce->getOperand(0)).e, constVal(ce->getOperand(1)).e);
  }
  string t; raw_string_ostream os(t); c->print(os); throw Undecided{"constant " + t};
}
static void storeConst(Obj& o, uint64_t off, const Constant* c) {
  Type* t = c->getType(); if (isa<UndefValue>(c) || c->isNullValue()) return;
  if (auto* st = dyn_cast<StructType>(t)) { auto* sl = DL->getStructLayout(st); for (unsigned i = 0; i < st->getNumElements(); i++) storeConst(o, off + sl->getElementOffset(i), c->getAggregateElement(i)); return; }
  if (t->isArrayTy() || t->isVectorTy()) { Type* et = t->isArrayTy() ? t->getArrayElementType() : cast<VectorType>(t)->getElementType(); uint64_t es = DL->getTypeAllocSize(et); uint64_t n = t->isArrayTy() ? t->getArrayNumElements() : cast<FixedVectorType>(t)->getNumElements(); for (uint64_t i = 0; i < n; i++) storeConst(o, off + i * es, c->getAggregateElement(i)); return; }
  E v = constVal(c).e; if (v->w % 8) v = X.zext(v, (v->w + 7) / 8 * 8); rawStore(o, off, v);
}
static uint64_t addrOf(const GlobalValue* gv) {
  auto it = gaddr.find(gv); if (it != gaddr.end()) return it->second;
  if (auto* al = dyn_cast<GlobalAlias>(gv)) { uint64_t a = constVal(al->getAliasee()).e->u64(); return gaddr[gv] = a; }
  if (auto* f = dyn_cast<Function>(gv)) { uint64_t a = 0x1000000 + faddr.size() * 16; gaddr[gv] = a; faddr[a] = const_cast<Function*>(f); return a; }
  auto* g = cast<GlobalVariable>(gv); uint64_t sz = DL->getTypeAllocSize(g->getValueType()); uint64_t al = 64; gnext = (gnext + al - 1) & ~(al - 1); uint64_t a = gnext; gnext += sz + 64; gaddr[gv] = a;
  auto o = make_shared<Obj>(); o->base = a; o->size = sz; o->global = true; o->zero = true; o->name = gv->getName().str(); o->ro = g->isConstant(); if (g->hasInitializer()) { globalObjs[a] = o; storeConst(*o, 0, g->getInitializer()); } else { o->opaque = true; o->size = std::max<uint64_t>(sz, 64); gnext += 64; globalObjs[a] = o; }
  return a;
}
static Val getv(State& s, Frame& f, const Value* v) { if (auto* c = dyn_cast<Constant>(v)) return constVal(c); auto it = f.fi->idx.find(v); assert(it != f.fi->idx.end()); Val& r = f.regs[it->second]; assert(r.e || r.agg); return r; }
static E get(State& s, const Value* v) { if (auto* c = dyn_cast<Constant>(v)) return constVal(c).e; Frame& f = *s.fr.back(); return f.regs[f.fi->idx.find(v)->second].e; }
static void set(State& s, const Instruction* i, Val v) { Frame& f = s.top(); f.regs[f.fi->idx[i]] = std::move(v); }

static Val loadT(State& s, E addr, Type* t) {
  if (auto* st = dyn_cast<StructType>(t)) { Val v; v.agg = make_shared<vector<Val>>(); auto* sl = DL->getStructLayout(st); for (unsigned i = 0; i < st->getNumElements(); i++) v.agg->push_back(loadT(s, X.add(addr, X.con(64, sl->getElementOffset(i))), st->getElementType(i))); return v; }
  if (auto* at = dyn_cast<ArrayType>(t)) { Val v; v.agg = make_shared<vector<Val>>(); uint64_t es = DL->getTypeAllocSize(at->getElementType()); for (unsigned i = 0; i < at->getNumElements(); i++) v.agg->push_back(loadT(s, X.add(addr, X.con(64, i * es)), at->getElementType())); return v; }
  if (t->isX86_FP80Ty()) return load(s, addr, 80);
  return load(s, addr, bitsOf(t));
}
static void storeT(State& s, E addr, const Val& v, Type* t) {
  if (auto* st = dyn_cast<StructType>(t)) { auto* sl = DL->getStructLayout(st); for (unsigned i = 0; i < st->getNumElements(); i++) storeT(s, X.add(addr, X.con(64, sl->getElementOffset(i))), (*v.agg)[i], st->getElementType(i)); return; }
  if (auto* at = dyn_cast<ArrayType>(t)) { uint64_t es = DL->getTypeAllocSize(at->getElementType()); for (unsigned i = 0; i < at->getNumElements(); i++) storeT(s, X.add(addr, X.con(64, i * es)), (*v.agg)[i], at->getElementType()); return; }
  store(s, addr, v.e);
}

// ---------------------------------------------------------------- guards (lock discipline)
static void guardCheck(State& s, E addr, unsigned n, bool write) {
  if (s.guards.empty() || s.guardPause || !addr->isConst()) return; Frame& f = *s.fr.back(); if (f.fi->verif) return;
  uint64_t a = addr->u64();
  for (auto& g : s.guards) { uint64_t b = std::get<0>(g), l = std::get<1>(g); if (a + n > b && a < b + l) { E fl = load(s, X.con(64, std::get<2>(g)), 32); require(s, X.ne(fl, X.con(32, 0)), std::get<3>(g), string("unprotected ") + (write ? "write" : "read") + " of shared state at offset " + std::to_string(a - b)); } }
}

// ---------------------------------------------------------------- RTTI
static const GlobalVariable* gvAt(uint64_t a) { static std::map<uint64_t, const GlobalVariable*> r; static size_t n = 0; if (n != gaddr.size()) { r.clear(); for (auto& g : gaddr) if (auto* v = dyn_cast<GlobalVariable>(g.first)) r[g.second] = v; n = gaddr.size(); } auto it = r.find(a); return it == r.end() ? nullptr : it->second; }
struct BaseI { uint64_t ti; int64_t off; bool virt, pub; };
static vector<BaseI> basesOf(uint64_t ti) {
  vector<BaseI> r; auto* g = gvAt(ti); if (!g || !g->hasInitializer()) return r; auto* cs = dyn_cast<ConstantStruct>(g->getInitializer()); if (!cs) return r;
  unsigned n = cs->getNumOperands();
  if (n == 3) { if (cs->getOperand(2)->getType()->isPointerTy()) r.push_back({constVal(cs->getOperand(2)).e->u64(), 0, false, true}); }
  else if (n >= 5 && cs->getOperand(2)->getType()->isIntegerTy()) for (unsigned i = 4; i + 1 < n; i += 2) { int64_t fl = (int64_t)sx(constVal(cs->getOperand(i + 1)).e->c, 64); r.push_back({constVal(cs->getOperand(i)).e->u64(), fl >> 8, (fl & 1) != 0, (fl & 2) != 0}); }
  return r;
}
static uint64_t rd64(State& s, uint64_t a) { bool g; ObjP* o = findObj(s, a, g); if (!o) throw Undecided{"rtti read"}; E e = rawLoad(s, (*o)->base, o->get(), a - (*o)->base, 8); if (!e->isConst()) throw Undecided{"rtti read sym"}; return e->u64(); }
// collect subobjects of type dst inside object obj of type ti
static void subobj(State& s, uint64_t ti, uint64_t obj, uint64_t dst, bool pub, std::set<std::pair<uint64_t, bool>>& out) {
  if (ti == dst) { out.insert({obj, pub}); }
  for (auto& b : basesOf(ti)) { uint64_t bo; if (!b.virt) bo = obj + b.off; else { if (!obj) { bo = 0; } else { uint64_t vp = rd64(s, obj); bo = obj + rd64(s, vp + b.off); } } subobj(s, b.ti, bo, dst, pub && b.pub, out); }
}
static bool catchMatch(State& s, uint64_t thrown, uint64_t obj, uint64_t ctype, uint64_t& adj) {
  if (!ctype) { adj = obj; return true; } if (thrown == ctype) { adj = obj; return true; }
  std::set<std::pair<uint64_t, bool>> r; subobj(s, thrown, obj, ctype, true, r); std::set<uint64_t> a; for (auto& x : r) if (x.second) a.insert(x.first); if (a.size() == 1) { adj = *a.begin(); return true; } return false;
}

// ---------------------------------------------------------------- division helper: q, r with a == q*b + r as fresh symbols
struct DivDef { E a, b; bool sg; E q, r, def; };
static std::map<std::tuple<E, E, bool>, DivDef> divs; static std::unordered_map<uint32_t, std::pair<DivDef*, bool>> divOf;
static DivDef& divDef(E a, E b, bool sg) {
  unsigned w = a->w; auto key = std::make_tuple(a, b, sg); auto it = divs.find(key); if (it != divs.end()) return it->second;
  i128 lo, hi, c = sg ? sx(b->c, w) : (i128)b->c; if (sg) { lo = -((i128)1 << (w - 1)); hi = ((i128)1 << (w - 1)) - 1; } else { lo = 0; hi = w >= 96 ? (i128)0 : ((i128)1 << w) - 1; }
  DivDef d; d.a = a; d.b = b; d.sg = sg; E rng;
  if (w > 96) { d.q = X.sym(w, "quot"); d.r = X.sym(w, "rem"); }
  else { try { IV v = zi->t(a); if (v.lo >= lo && v.hi <= hi) { lo = v.lo; hi = v.hi; } } catch (NoInt&) {} i128 rl = lo < 0 ? -(c - 1) : 0, rh = hi > 0 ? c - 1 : 0; d.q = X.symb(w, "quot", lo / c, hi / c); d.r = X.symb(w, "rem", rl, rh); }
  E q = d.q, m = d.r;
  if (!sg) rng = X.and_(X.ult(m, b), X.ule(q, X.con(w, maskw(w) / b->c)));
  else { i128 mn = -((i128)1 << (w - 1)), mx = ((i128)1 << (w - 1)) - 1; E z = X.con(w, 0); rng = X.and_(X.and_(X.sle(X.con(w, (u128)(mn / c)), q), X.sle(q, X.con(w, (u128)(mx / c)))), X.ite(X.slt(a, z), X.and_(X.sle(m, z), X.slt(X.con(w, (u128)(-c)), m)), X.and_(X.sle(z, m), X.slt(m, b)))); }
  d.def = X.and_(X.eq(a, X.add(X.mul(q, b), m)), rng);
  auto& r = divs[key]; r = d; divOf[q->aux] = {&r, false}; divOf[m->aux] = {&r, true}; return r;
}
static E divrem(State& s, unsigned op, E a, E b) {
  bool sg = op == Instruction::SDiv || op == Instruction::SRem; bool rem = op == Instruction::URem || op == Instruction::SRem; unsigned w = a->w;
  E r = bin(op, a, b); if (r->k != K::UDIV && r->k != K::SDIV && r->k != K::UREM && r->k != K::SREM) return r; if (!b->isConst() && !sg) { // small quotient (provably at most 3): case distinction instead of a division circuit
    E x = a, q = X.con(w, 0), m = a; vector<std::pair<E, E>> cs; // cs: (a - i*b < b, i)
    for (int i = 0; i < 4; i++) { E lt = X.ult(x, b); cs.push_back({lt, x}); E none = X.T; for (auto& p : cs) none = X.and_(none, X.notb(p.first)); if (sat(s, none) == 0) { E rq = X.con(w, i), rm = x; for (int j = i - 1; j >= 0; j--) { rq = X.ite(cs[j].first, X.con(w, j), rq); rm = X.ite(cs[j].first, cs[j].second, rm); } return rem ? rm : rq; } x = X.sub(x, b); }
    return r; }
  if (!b->isConst() || w < 16) return r;
  if (sg && sx(b->c, w) < 0) return r;
  DivDef& d = divDef(a, b, sg); E q = d.q, m = d.r;
  if (!s.pcset.count(d.def)) {
    if (s.model) { std::unordered_map<E, u128> mm; u128 v; if (X.eval(a, *s.model, mm, v)) { auto nm = make_shared<Ctx::Model>(*s.model); if (!sg) { (*nm)[q->aux] = v / b->c; (*nm)[m->aux] = v % b->c; } else { i128 x = sx(v, w), c = sx(b->c, w); (*nm)[q->aux] = (u128)(x / c) & maskw(w); (*nm)[m->aux] = (u128)(x % c) & maskw(w); } s.model = nm; } else s.model = nullptr; }
    assume(s, d.def); s.pcset.insert(d.def); }
  return rem ? m : q;
}

// ---------------------------------------------------------------- subsumption
struct Matcher { Ctx::Subst sig; vector<std::pair<E, E>> eqs; std::unordered_set<uint64_t> seen; bool nonId = false;
  bool m(E a, E b) { if (!a->hasSym) { if (a == b) return true; if (!b->hasSym) return false; eqs.push_back({a, b}); return true; }
    uint64_t key = ((uint64_t)a->id << 32) | b->id; if (!seen.insert(key).second) return true;
    if (a->k == K::SYM || a->k == K::ASYM) { if (a->w != b->w) return false; auto it = sig.find(a->aux); if (it == sig.end()) { sig[a->aux] = b; if (a != b) nonId = true; return true; } if (it->second == b) return true; if (a->k == K::ASYM) return false; eqs.push_back({a, b}); return true; }
    if (a == b) { std::unordered_set<E> sn; vector<uint32_t> sy; X.collect(a, sn, sy); for (auto i : sy) { auto it = sig.find(i); if (it == sig.end()) { sig[i] = symE(i); } else if (it->second != symE(i)) { eqs.push_back({a, b}); return true; } } return true; }
    if (a->k != b->k || a->w != b->w || a->aux != b->aux) { eqs.push_back({a, b}); return a->w == b->w; }
    if (a->a && !m(a->a, b->a)) return false; if (a->b && !m(a->b, b->b)) return false; if (a->d && !m(a->d, b->d)) return false; return true; }
  static E symE(uint32_t id) { auto& si = X.syms[id]; return X.mk(si.arr ? K::ASYM : K::SYM, si.w, nullptr, nullptr, nullptr, id); }
  bool mv(const Val& a, const Val& b) { if (!a.e && !a.agg) return true; if (a.e) return b.e && a.e->w == b.e->w && m(a.e, b.e); if (!b.agg || a.agg->size() != b.agg->size()) return false; for (size_t i = 0; i < a.agg->size(); i++) if (!mv((*a.agg)[i], (*b.agg)[i])) return false; return true; } };
static string show(E e, unsigned d = 0) { if (d > 14) return "..."; static const std::map<K, const char*> op{{K::ADD,"+"},{K::SUB,"-"},{K::MUL,"*"},{K::AND,"&"},{K::OR,"|"},{K::XOR,"^"},{K::EQ,"=="},{K::ULT,"u<"},{K::ULE,"u<="},{K::SLT,"<"},{K::SLE,"<="},{K::UDIV,"u/"},{K::CONCAT,"."}};
  if (e->k == K::CONST) return std::to_string((long long)sx(e->c, e->w)); if (e->k == K::SYM) return X.syms[e->aux].name + "#" + std::to_string(e->aux);
  auto it = op.find(e->k); if (it != op.end()) return "(" + show(e->a, d + 1) + it->second + show(e->b, d + 1) + ")"; string r = "f" + std::to_string((int)e->k) + "_" + std::to_string(e->aux) + "("; for (E x : {e->a, e->b, e->d}) if (x) r += show(x, d + 1) + ","; return r + ")"; }
static const BitVector& liveBefore(FnInfo* fi, const Instruction* I);
static bool sameVal(const Val& a, const Val& b) { if (a.e != b.e || !a.agg != !b.agg) return false; if (a.agg == b.agg) return true; if (a.agg->size() != b.agg->size()) return false; for (size_t i = 0; i < a.agg->size(); i++) if (!sameVal((*a.agg)[i], (*b.agg)[i])) return false; return true; }
static bool sameFrame(const FrameP& pa, const FrameP& pb) { if (pa == pb) return true; const Frame &a = *pa, &b = *pb; if (a.fi != b.fi || a.it != b.it || a.call != b.call || a.stackMark != b.stackMark || a.allocas != b.allocas) return false; auto& l = liveBefore(a.fi, &*a.it); for (unsigned i : l.set_bits()) if (i < a.regs.size() && !sameVal(a.regs[i], b.regs[i])) return false; return true; }
static const uint64_t HEAPLO = 0x600000000000ull, HEAPHI = 0x7f0000000000ull;
// cross: the older state lies on another path (already explored or still to be explored): nothing is shared with it
static bool subsumed(State& old, State& nw, FnInfo* fi, const BasicBlock* h, string* why, bool cross = false) {
  if (cross) { if (old.hookOff != nw.hookOff || old.hookDone != nw.hookDone || old.guards != nw.guards || old.stackTop != nw.stackTop || old.fr.size() != nw.fr.size()) return false; if (old.fr.back()->allocas != nw.fr.back()->allocas || old.fr.back()->call != nw.fr.back()->call) return false; for (size_t i = 0; i + 1 < old.fr.size(); i++) if (!sameFrame(old.fr[i], nw.fr[i])) return false;
    auto a = old.mem.lower_bound(HEAPLO), b = nw.mem.lower_bound(HEAPLO); while (true) { bool ea = a == old.mem.end() || a->first >= HEAPHI, eb = b == nw.mem.end() || b->first >= HEAPHI; if (ea != eb) return false; if (ea) break; if (a->first != b->first) return false; ++a; ++b; } }
  if (old.cur != nw.cur || old.stacks.size() != nw.stacks.size()) return false; for (size_t i = 0; i < old.stacks.size(); i++) if (old.stacks[i].fr != nw.stacks[i].fr) return false;
  if (old.fr.size() != nw.fr.size() || old.guardPause != nw.guardPause || old.guards.size() != nw.guards.size()) return false;
  Matcher mt; auto& of = *old.fr.back(); auto& nf = *nw.fr.back(); BitVector& live = fi->headerLive[h];
  for (unsigned i : live.set_bits()) { if (i >= of.regs.size()) continue; if (!of.regs[i].e && !of.regs[i].agg) continue; if (!mt.mv(of.regs[i], nf.regs[i])) { if (why) *why = "reg"; return false; } }
  vector<const Obj*> same;
  auto oi = old.mem.begin(), ni = nw.mem.begin();
  while (oi != old.mem.end()) {
    while (ni != nw.mem.end() && ni->first < oi->first) ++ni; // extra objects in the newer state are harmless
    if (ni == nw.mem.end() || ni->first != oi->first) { if (why) *why = "missing object " + oi->second->name; return false; }
    const Obj &a = *oi->second, &b = *ni->second;
    if (&a == &b) same.push_back(&a);
    else { if (a.size != b.size) { if (why) *why = "size " + a.name; return false; } if (a.arr || b.arr) { if (!a.arr || !b.arr || !mt.m(a.arr, b.arr) || !mt.m(a.len, b.len)) { if (why) *why = "arr"; return false; } }
      for (auto& c : a.cells) { auto it = b.cells.find(c.first); E bv; if (it == b.cells.end() || it->second->w != c.second->w) { State& t = nw; // assemble
            bool ok = true; uint32_t n = c.second->w / 8; for (uint32_t k = c.first; k < c.first + n;) { auto jt = b.cells.upper_bound(k); if (jt == b.cells.begin()) { ok = false; break; } --jt; uint32_t e = jt->first + jt->second->w / 8; if (e <= k) { ok = false; break; } k = e; } (void)t;
            if (!ok) { if (b.zero) { bv = nullptr; } if (why) *why = "layout " + a.name + "+" + std::to_string(c.first); return false; } bv = rawLoad(nw, b.base, &b, c.first, n); }
        else bv = it->second;
        if (!mt.m(c.second, bv)) { if (why) *why = "cell " + a.name + "+" + std::to_string(c.first); return false; } }
      if (a.zero) for (auto& c : b.cells) if (!a.cells.count(c.first)) { if (!c.second->isConst() || c.second->c) { bool cov = false; auto jt = a.cells.upper_bound(c.first); if (jt != a.cells.begin()) { --jt; cov = jt->first + jt->second->w / 8 >= c.first + c.second->w / 8; } if (!cov) { if (why) *why = "zero-layout " + a.name; return false; } } } }
    ++oi;
  }
  // global objects first written after the snapshot: compare with their initial contents
  for (auto& n : nw.mem) if (n.second->global && !old.mem.count(n.first)) { auto g = globalObjs.find(n.first); const Obj &a = *g->second, &b = *n.second; for (auto& c : b.cells) { auto it = a.cells.find(c.first); E av = it != a.cells.end() ? it->second : X.con(c.second->w, 0); if (av != c.second) { if (why) *why = "global " + a.name; return false; } } }
  // identity requirement for symbols in untouched objects
  auto idsyms = [&](E e) { if (!e->hasSym) return true; std::unordered_set<E> sn; vector<uint32_t> sy; X.collect(e, sn, sy); for (auto i : sy) { auto it = mt.sig.find(i); if (it == mt.sig.end()) mt.sig[i] = Matcher::symE(i); else if (it->second != Matcher::symE(i)) mt.eqs.push_back({Matcher::symE(i), Matcher::symE(i)}); } return true; };
  if (mt.nonId || cross) { mt.nonId = true; for (auto* o : same) { for (auto& c : o->cells) idsyms(c.second); if (o->arr) { idsyms(o->arr); idsyms(o->len); } }
    // lower frames are shared; their registers must be unaffected too
    for (size_t i = 0; i + 1 < old.fr.size(); i++) { if (!cross && old.fr[i] != nw.fr[i]) return false; auto& lv = liveBefore(old.fr[i]->fi, &*old.fr[i]->it); for (unsigned ri = 0; ri < old.fr[i]->regs.size(); ri++) { if (cross && (ri >= lv.size() || !lv[ri])) continue; auto& r = old.fr[i]->regs[ri]; std::function<void(const Val&)> w = [&](const Val& v) { if (v.e) idsyms(v.e); if (v.agg) for (auto& x : *v.agg) w(x); }; w(r); } } }
  else if (!cross) for (size_t i = 0; i + 1 < old.fr.size(); i++) if (old.fr[i] != nw.fr[i]) return false;
  // quotients and remainders matched with others: match the operands they are defined from (dead symbols may be renamed)
  if (mt.nonId) for (int round = 0; round < 4; round++) { bool ch = false; vector<std::pair<uint32_t, E>> sv(mt.sig.begin(), mt.sig.end());
    for (auto& x : sv) { if (x.second->k != K::SYM || x.second->aux == x.first) continue; auto a = divOf.find(x.first), b = divOf.find(x.second->aux); if (a == divOf.end() || b == divOf.end()) continue; DivDef &da = *a->second.first, &db = *b->second.first; if (a->second.second != b->second.second || da.sg != db.sg || da.b != db.b) continue;
      Matcher t = mt; if (!t.m(da.a, db.a) || t.eqs.size() != mt.eqs.size()) continue; if (t.sig.size() != mt.sig.size()) { mt = t; ch = true; } }
    if (!ch) break; }
  // verify substitution implications
  std::unordered_map<E, E> memo; E goal = X.T;
  for (auto& e : mt.eqs) { E l = X.subst(e.first, mt.sig, memo); E q = X.eq(l, e.second); if (q->isConst() && !q->c) { if (why) *why = "eq"; return false; } goal = X.and_(goal, q); }
  vector<E> hyp;
  if (mt.nonId) { // definitional symbols (quotients, remainders) follow the operands they are defined from
    std::function<void(uint32_t)> ext = [&](uint32_t id) { if (mt.sig.count(id)) return; auto it = divOf.find(id); if (it == divOf.end()) return; DivDef d = *it->second.first; mt.sig[id] = Matcher::symE(id); for (auto i : zi->symsOf(d.a)) ext(i); std::unordered_map<E, E> mm; E na = X.subst(d.a, mt.sig, mm); if (na == d.a) return; E r = bin(d.sg ? Instruction::SDiv : Instruction::UDiv, na, d.b); if (na->isConst() || (r->k != K::UDIV && r->k != K::SDIV)) { E rr = bin(d.sg ? Instruction::SRem : Instruction::URem, na, d.b); mt.sig[d.q->aux] = r; mt.sig[d.r->aux] = rr; return; } DivDef& n = divDef(na, d.b, d.sg); mt.sig[d.q->aux] = n.q; mt.sig[d.r->aux] = n.r; if (!nw.pcset.count(n.def)) hyp.push_back(n.def); };
    for (auto c : old.pc) for (auto i : zi->symsOf(c)) ext(i); memo.clear(); }
  // path conditions of the old state; those that do not constrain (even indirectly) any symbol still present are satisfiable on their own
  vector<E> opc; bool unbound = false;
  if (mt.nonId) { vector<bool> in(old.pc.size()); std::unordered_set<uint32_t> lv; for (auto& x : mt.sig) lv.insert(x.first); bool ch = true;
    while (ch) { ch = false; for (size_t i = 0; i < old.pc.size(); i++) if (!in[i]) { auto& q = zi->symsOf(old.pc[i]); bool t = false; for (auto x : q) if (lv.count(x)) t = true; if (t) { in[i] = ch = true; for (auto x : q) lv.insert(x); } } }
    for (size_t i = 0; i < old.pc.size(); i++) if (in[i]) { opc.push_back(old.pc[i]); for (auto x : zi->symsOf(old.pc[i])) if (!mt.sig.count(x)) unbound = true; } }
  auto pc2 = nw.pc; for (auto h : hyp) pc2.push_back(h);
  auto prove = [&](Ctx::Subst& sig) -> bool { std::unordered_map<E, E> me; E g = goal;
    for (auto c : opc) { E q = X.subst(c, sig, me); if (nw.pcset.count(q)) continue; if (q->isConst()) { if (!q->c) { if (why) *why = "pc"; return false; } continue; } g = X.and_(g, q); }
    if (g->isConst()) return g->c;
    bool b; if (hyp.empty() && evalM(nw, g, b) && !b) { if (opt.trace) for (auto c : opc) { E q = X.subst(c, sig, me); bool v; if (evalM(nw, q, v) && !v) fprintf(stderr, "  fails: %s\n    as   %s\n", show(c).c_str(), show(q).c_str()); } if (why) *why = "pc-model"; return false; }
    int r = Zcheck(pc2, X.notb(g), nullptr); if (r != 0 && why) { *why = "pc-implication" + std::to_string(r); if (opt.trace) for (auto c : opc) { E q = X.subst(c, sig, me); if (nw.pcset.count(q) || q->isConst()) continue; int r1 = Zcheck(pc2, X.notb(q), nullptr); if (r1) fprintf(stderr, "  %d: %s\n    as   %s\n", r1, show(c).c_str(), show(q).c_str()); } } return r == 0; };
  if (prove(mt.sig)) return true;
  if (!unbound) return false;
  // symbols no longer present in the old state are existentially quantified: find instances in the conditions of the new one
  Matcher t = mt; bool ch = true; while (ch) { ch = false;
    for (auto c : opc) { auto& sy = zi->symsOf(c); bool b = false, u = false; for (auto x : sy) (t.sig.count(x) ? b : u) = true; if (!b || !u) continue; std::unordered_map<E, E> me; E q = X.subst(c, t.sig, me); if (nw.pcset.count(q)) { for (auto x : sy) if (!t.sig.count(x)) t.sig[x] = Matcher::symE(x); ch = true; continue; }
      for (size_t k = nw.pc.size(); k-- > 0;) { E d = nw.pc[k]; if (d->k != c->k || d->w != c->w) continue; Matcher r = t; r.eqs.clear(); r.seen.clear(); if (!r.m(c, d) || !r.eqs.empty()) continue; t = r; ch = true; break; } } }
  if (t.sig.size() != mt.sig.size() && prove(t.sig)) return true;
  // or witnesses taken from the bounds of their ranges (quotients and remainders follow their operands)
  std::function<bool(uint32_t, int)> dead = [&](uint32_t x, int d) -> bool { auto it = divOf.find(x); if (it == divOf.end() || d > 6) { auto z = t.sig.find(x); return z == t.sig.end(); } for (auto y : zi->symsOf(it->second.first->a)) if (dead(y, d + 1)) return true; return false; };
  std::map<uint32_t, vector<E>> cand; for (auto c : opc) { auto& sy = zi->symsOf(c); if (sy.size() != 1 || t.sig.count(sy[0]) || divOf.count(sy[0])) continue; E sx = Matcher::symE(sy[0]); if (sx->k != K::SYM) continue; std::function<void(E)> w = [&](E e) { if (!e) return; if (e->k == K::CONST && e->w == sx->w) { auto& v = cand[sy[0]]; v.push_back(e); } w(e->a); w(e->b); w(e->d); }; w(c); }
  if (cand.empty()) return false;
  vector<uint32_t> divs; for (auto c : opc) for (auto x : zi->symsOf(c)) if (divOf.count(x) && dead(x, 0)) divs.push_back(x); for (auto x : divs) t.sig.erase(x);
  std::function<void(uint32_t)> follow = [&](uint32_t id) { if (t.sig.count(id)) return; auto it = divOf.find(id); if (it == divOf.end()) return; DivDef d = *it->second.first; for (auto i : zi->symsOf(d.a)) { follow(i); if (!t.sig.count(i)) return; } std::unordered_map<E, E> mm; E na = X.subst(d.a, t.sig, mm); if (na->isConst()) { t.sig[d.q->aux] = bin(d.sg ? Instruction::SDiv : Instruction::UDiv, na, d.b); t.sig[d.r->aux] = bin(d.sg ? Instruction::SRem : Instruction::URem, na, d.b); } else { t.sig[d.q->aux] = d.q; t.sig[d.r->aux] = d.r; } };
  for (auto& cx : cand) { uint32_t x = cx.first; bool found = false; for (auto c : opc) { if ((c->k != K::SLT && c->k != K::SLE && c->k != K::EQ) || !c->a->hasSym || !c->b->hasSym) continue; E sx = Matcher::symE(x), o = c->a == sx ? c->b : c->b == sx ? c->a : nullptr; if (!o) continue; bool all = true; for (auto y : zi->symsOf(o)) if (!t.sig.count(y)) all = false; if (!all) continue; std::unordered_map<E, E> me; E v = X.subst(o, t.sig, me); cx.second.push_back(v); if (c->k == K::SLT) cx.second.push_back(X.add(v, X.con(v->w, c->a == sx ? -1 : 1))); }
    std::sort(cx.second.begin(), cx.second.end(), [](E a, E b) { if (a->isConst() != b->isConst()) return a->isConst(); return a->isConst() && a->c != b->c ? a->c < b->c : a->id < b->id; }); cx.second.erase(std::unique(cx.second.begin(), cx.second.end()), cx.second.end());
    for (E v : cx.second) { Ctx::Subst save = t.sig; t.sig[x] = v; for (auto d : divs) follow(d); bool ok = true; std::unordered_map<E, E> me;
      for (auto c : opc) { auto& sy = zi->symsOf(c); bool has = false, all = true; for (auto y : sy) { if (!t.sig.count(y)) all = false; if (!save.count(y)) has = true; } if (!has || !all) continue; E q = X.subst(c, t.sig, me); if (q->isConst()) { if (!q->c) { ok = false; break; } continue; } bool b; if (evalM(nw, q, b) && !b) { ok = false; break; } }
      if (ok) { found = true; break; } t.sig = save; }
    if (!found) return false; }
  return prove(t.sig);
}

// ---------------------------------------------------------------- merging of scheduler states
// vc_merge(): called by the harness scheduler between steps. A state that is identical to one met before (all coroutine stacks,
// all memory, and all path conditions that constrain a symbol still present in them) has the same futures and is dropped.
static const BitVector& liveBefore(FnInfo* fi, const Instruction* I) {
  auto it = fi->liveAt.find(I); if (it != fi->liveAt.end()) return it->second; loops(fi); const BasicBlock* b = I->getParent(); BitVector l(fi->n);
  for (auto* s : successors(b)) { BitVector t = fi->liveIn[s]; for (auto& ph : s->phis()) t.reset(fi->idx[&ph]); l |= t; for (auto& ph : s->phis()) { auto q = fi->idx.find(ph.getIncomingValueForBlock(b)); if (q != fi->idx.end()) l.set(q->second); } }
  for (auto r = b->rbegin(); r != b->rend(); ++r) { auto q = fi->idx.find(&*r); if (q != fi->idx.end()) l.reset(q->second); if (!isa<PHINode>(*r)) for (auto& o : r->operands()) { auto z = fi->idx.find(o.get()); if (z != fi->idx.end()) l.set(z->second); } if (&*r == I) break; }
  return fi->liveAt[I] = l;
}
struct Key128 { uint64_t a, b; bool operator==(const Key128& o) const { return a == o.a && b == o.b; } }; struct KeyH { size_t operator()(const Key128& k) const { return k.a; } };
static std::unordered_set<Key128, KeyH> visited;
static bool mergeSeen(State& s) {
  Key128 k{0x9e3779b97f4a7c15ull, 0xc2b2ae3d27d4eb4full}; std::unordered_set<E> sn; vector<uint32_t> sy;
  auto mix = [&](uint64_t v) { k.a = (k.a ^ v) * 0xff51afd7ed558ccdull; k.a ^= k.a >> 32; k.b = (k.b + v) * 0xc4ceb9fe1a85ec53ull; k.b ^= k.b >> 29; };
  auto me = [&](E e) { mix(e ? e->id + 1 : 0); if (e && e->hasSym) X.collect(e, sn, sy); };
  std::function<void(const Val&)> mv = [&](const Val& v) { if (v.agg) { mix(v.agg->size() + 77); for (auto& x : *v.agg) mv(x); } else me(v.e); };
  auto mfr = [&](const vector<FrameP>& fr) { mix(fr.size()); for (auto& fp : fr) { Frame& f = *fp; const Instruction* I = &*f.it; mix((uint64_t)I); mix((uint64_t)f.call); mix(f.stackMark); auto& l = liveBefore(f.fi, I); for (unsigned i : l.set_bits()) if (i < f.regs.size()) mv(f.regs[i]); } };
  mix(s.cur); mix(s.stackTop); mix(s.heapNext); mix(s.hookDone); mix(s.hookOff); mix(s.guardPause); mix(s.guards.size()); for (auto& g : s.guards) { mix(std::get<0>(g)); mix(std::get<1>(g)); mix(std::get<2>(g)); } mfr(s.fr); for (auto& t : s.stacks) { mix(t.stackTop); mfr(t.fr); }
  for (auto& o : s.mem) { const Obj& b = *o.second; mix(o.first); mix(b.size * 2 + b.zero); me(b.arr); me(b.len); for (auto& c : b.cells) { if (b.zero && c.second->isConst() && !c.second->c) continue; mix(((uint64_t)c.first << 32) | c.second->w); me(c.second); } }
  std::unordered_set<uint32_t> live(sy.begin(), sy.end()); vector<bool> in(s.pc.size()); bool ch = !live.empty();
  while (ch) { ch = false; for (size_t i = 0; i < s.pc.size(); i++) if (!in[i]) { auto& q = zi->symsOf(s.pc[i]); bool t = false; for (auto x : q) if (live.count(x)) t = true; if (t) { in[i] = ch = true; for (auto x : q) live.insert(x); } } }
  vector<uint64_t> ids; for (size_t i = 0; i < s.pc.size(); i++) if (in[i]) ids.push_back(s.pc[i]->id); std::sort(ids.begin(), ids.end()); for (auto i : ids) mix(i);
  return !visited.insert(k).second;
}
// ---------------------------------------------------------------- control flow
static void jump(State& s, BasicBlock* to) {
  Frame& f = s.top(); BasicBlock* from = f.bb; vector<std::pair<unsigned, Val>> ph; for (auto& p : to->phis()) ph.push_back({f.fi->idx[&p], getv(s, f, p.getIncomingValueForBlock(from))}); for (auto& x : ph) f.regs[x.first] = std::move(x.second);
  f.prev = from; f.bb = to; f.it = to->getFirstNonPHI()->getIterator(); loops(f.fi);
  if (f.fi->headers.count(to) && !opt.noSubs && f.fi->name != "vc_run()") {
    bool back = f.fi->back.count({from, to}); unsigned n = 0; uint64_t lastEv = ~0ull; bool have = false;
    if (!back) { // entering the loop: forget snapshots of the previous run of this loop
      shared_ptr<Snap> keep; vector<shared_ptr<Snap>> v; for (auto p = f.snaps; p; p = p->next) if (p->h != to) v.push_back(p); f.snaps = nullptr; for (size_t i = v.size(); i-- > 0;) { auto q = make_shared<Snap>(*v[i]); q->next = f.snaps; f.snaps = q; } }
    else { unsigned cnt = 0; for (auto p = f.snaps; p; p = p->next) if (p->h == to) { if (!have) { lastEv = p->ev; have = true; } cnt++; }
      if (have && lastEv == s.ev) return; // concrete progress only
      string w; for (auto p = f.snaps; p && n < 12; p = p->next) if (p->h == to) { n++; if (subsumed(*p->st, s, f.fi, to, &w)) { nSub++; if (opt.trace) fprintf(stderr, "subsumed at %s\n", f.fi->name.c_str()); throw PathEnd(); } if (opt.trace) fprintf(stderr, "not subsumed at %s: %s\n", f.fi->name.c_str(), w.c_str()); }
      if (!opt.noCross) { unsigned m = 0; string w2; auto& gs = gsnaps[to]; for (size_t i = gs.size(); i-- > 0 && m < 64;) { m++; if (subsumed(*gs[i]->st, s, f.fi, to, &w2, true)) { nSub++; if (opt.trace) fprintf(stderr, "subsumed (other path) at %s\n", f.fi->name.c_str()); throw PathEnd(); } } }
      if (cnt >= opt.loopBound) { if (opt.bounded) { nBounded++; throw PathEnd(); } undecided(s, "loop does not converge in " + f.fi->name + " (" + w + ")"); throw PathEnd(); } }
    auto sn = make_shared<Snap>(); sn->h = to; sn->ev = s.ev; auto copy = make_shared<State>(s); copy->fr.back() = make_shared<Frame>(*copy->fr.back()); copy->fr.back()->snaps = nullptr; sn->st = copy; sn->next = s.top().snaps; s.top().snaps = sn;
    if (back && !opt.noCross) { auto& gs = gsnaps[to]; if (gs.size() >= 512) gs.erase(gs.begin(), gs.begin() + 256); gs.push_back(sn); }
  }
}
static void pushCall(State& s, Function* f, const vector<Val>& args, CallBase* cb) {
  if (s.fr.size() > 400) throw Undecided{"call depth"};
  auto fi = info(f); if (fi->repo) { repoFns.insert(fi->name); }
  auto nf = make_shared<Frame>(); nf->fi = fi; nf->bb = &f->getEntryBlock(); nf->it = nf->bb->begin(); nf->regs.resize(fi->n); nf->call = cb; nf->stackMark = s.stackTop; unsigned i = 0; for (auto& a : f->args()) { (void)a; if (i < args.size()) nf->regs[i] = args[i]; else nf->regs[i] = zeroOf(a.getType()); i++; }
  s.fr.push_back(nf);
}
static void popFrame(State& s) { auto& f = *s.fr.back(); for (auto a : f.allocas) s.mem.erase(a); s.stackTop = f.stackMark; s.fr.pop_back(); }
static void advance(State& s) { Frame& f = s.top(); Instruction* I = &*f.it; if (auto* iv = dyn_cast<InvokeInst>(I)) jump(s, iv->getNormalDest()); else ++f.it; }
static uint64_t typeidSel(uint64_t ti) { return ti ? (ti & 0x7fffffff) : 1; }
// unwinding: token is the exception header pointer; ti/obj the thrown object
static void unwind(State& s, uint64_t token, uint64_t ti, uint64_t obj) {
  while (true) {
    if (s.fr.empty()) throw PathEnd();
    Frame& f = *s.fr.back(); Instruction* I = &*f.it;
    if (auto* iv = dyn_cast<InvokeInst>(I)) {
      LandingPadInst* lp = iv->getLandingPadInst(); uint64_t sel = 0; bool enter = lp->isCleanup(); uint64_t adj = obj;
      for (unsigned i = 0; i < lp->getNumClauses(); i++) { if (lp->isCatch(i)) { Constant* c = lp->getClause(i); uint64_t ct = constVal(c).e->u64(); if (catchMatch(s, ti, obj, ct, adj)) { sel = typeidSel(ct); enter = true; break; } } else { // filter: empty filter matches everything
            auto* at = cast<ArrayType>(lp->getClause(i)->getType()); if (at->getNumElements() == 0) { fail(s, "terminate", "exception leaves a noexcept function"); } } }
      if (enter) { // tell the runtime the adjusted pointer
        store(s, X.con(64, token + 8), X.con(64, adj)); BasicBlock* ub = iv->getUnwindDest(); jump(s, ub); Val v; v.agg = make_shared<vector<Val>>(); v.agg->push_back(X.con(64, token)); v.agg->push_back(X.con(32, sel)); Frame& g = s.top(); // set landingpad value and step over it
        Instruction* L = &*g.it; while (!isa<LandingPadInst>(L)) L = L->getNextNode(); g.regs[g.fi->idx[L]] = v; g.it = std::next(L->getIterator()); return; }
    }
    if (s.fr.size() == 1) { string tn; auto* g = gvAt(ti); tn = g ? demangle(g->getName().str()) : "?"; fail(s, "uncaught", "uncaught exception " + tn); }
    if (f.fi->f->doesNotThrow()) fail(s, "terminate", "exception leaves nounwind function " + f.fi->name);
    popFrame(s);
  }
}

// ---------------------------------------------------------------- builtin calls
static void memcopy(State& s, E d, E sr, uint64_t n) {
  if (!n) return; d = concretize(s, d); sr = concretize(s, sr); if (d == sr) return; guardCheck(s, sr, n, false); guardCheck(s, d, n, true);
  bool g; ObjP* dp = findObj(s, d->u64(), g); ObjP* sp = findObj(s, sr->u64(), g);
  if ((dp && (*dp)->arr) || (sp && (*sp)->arr)) { uint32_t es = (dp && (*dp)->arr) ? (*dp)->es : (*sp)->es; if (n % es) throw Undecided{"array memcpy"}; vector<E> t; for (uint64_t i = 0; i < n; i += es) t.push_back(load(s, X.add(sr, X.con(64, i)), es * 8)); for (uint64_t i = 0; i < n; i += es) store(s, X.add(d, X.con(64, i)), t[i / es]); return; }
  Loc ls = access(s, sr, n, false); vector<std::pair<uint32_t, E>> t; ObjP src = *ls.o; uint64_t end = ls.off + n;
  for (uint64_t i = ls.off; i < end;) { auto jt = src->cells.upper_bound(i); if (jt != src->cells.begin()) { auto p = std::prev(jt); uint64_t pe = p->first + p->second->w / 8; if (pe > i) { uint64_t e = std::min(pe, end); t.push_back({(uint32_t)(i - ls.off), X.extract(p->second, (i - p->first) * 8, (e - i) * 8)}); i = e; continue; } }
    uint64_t nx = jt == src->cells.end() ? end : std::min<uint64_t>(jt->first, end); if (src->zero) { for (uint64_t k = i; k < nx;) { uint64_t l = std::min<uint64_t>(8, nx - k); t.push_back({(uint32_t)(k - ls.off), X.con(l * 8, 0)}); k += l; } } else t.push_back({(uint32_t)(i - ls.off), nullptr}), t.back().second = nullptr; i = nx; }
  Loc ld = access(s, d, n, true); Obj& o = wr(s, ld.base);
  // clear destination range, then write
  { auto lo = ld.off, hi = ld.off + n; for (auto it = o.cells.begin(); it != o.cells.end();) { uint64_t b = it->first, e = b + it->second->w / 8; if (e <= lo || b >= hi) { ++it; continue; } E old = it->second; it = o.cells.erase(it); if (b < lo) o.cells[b] = X.extract(old, 0, (lo - b) * 8); if (e > hi) { o.cells[hi] = X.extract(old, (hi - b) * 8, (e - hi) * 8); } } }
  for (auto& x : t) if (x.second) o.cells[ld.off + x.first] = x.second;
  if (o.zero) { // undefined source bytes into a zero-default object: make them explicit
    for (size_t i = 0; i < t.size(); i++) if (!t[i].second) { uint64_t b = t[i].first, e = i + 1 < t.size() ? t[i + 1].first : n; for (; b < e;) { uint64_t l = std::min<uint64_t>(8, e - b); o.cells[ld.off + b] = X.sym(l * 8, "undef"); b += l; } } }
}
static void memfill(State& s, E d, E v, uint64_t n) {
  if (!n) return; d = concretize(s, d); guardCheck(s, d, n, true); Loc ld = access(s, d, n, true); Obj& o = wr(s, ld.base);
  for (uint64_t i = 0; i < n;) { uint64_t l = (i + 8 <= n && (ld.off + i) % 8 == 0) ? 8 : 1; E c; if (v->isConst()) { u128 x = 0; for (unsigned k = 0; k < l; k++) x = (x << 8) | (uint8_t)v->u64(); c = X.con(l * 8, x); } else { c = v; for (unsigned k = 1; k < l; k++) c = X.concat(v, c); } rawStore(o, ld.off + i, c); i += l; }
}
static E nondet(State& s, unsigned w, const string& name) { E e = X.sym(w, name); auto n = make_shared<LogN>(); n->name = name; n->e = e; n->next = s.log; s.log = n; s.ev++; return e; }
// vc_contract(substr, f): calls made by functions of the code under verification to functions whose name contains substr are checked
// against the contract f (same signature) instead of entering the body
static vector<std::pair<string, Function*>> contracts; static std::set<string> usedContracts;
static Function* hookFn; static uint64_t hookOn = 0;
enum R { DONE, PUSHED, NOTFOUND, SWITCHED };
static double asD(E e) { double d; uint64_t u = e->u64(); memcpy(&d, &u, 8); return d; }
static E fromD(double d) { uint64_t u; memcpy(&u, &d, 8); return X.con(64, u); }
static R builtin(State& s, CallBase* cb, const string& n, vector<Val>& a, Val& ret) {
  auto A = [&](unsigned i) { return a[i].e; };
  if (n.compare(0, 3, "vc_") == 0 || n.compare(0, 4, "vcx_") == 0) {
    if (n.compare(0, 10, "vc_nondet_") == 0) { unsigned w = n == "vc_nondet_bool" ? 1 : n == "vc_nondet_u8" ? 8 : n == "vc_nondet_u32" ? 32 : n == "vc_nondet_u128" ? 128 : 64; ret = nondet(s, w, cstr(s, A(0))); return DONE; }
    if (n == "vc_range64") { i128 lo = sx(A(1)->c, 64), hi = sx(A(2)->c, 64); if (lo > hi) throw PathEnd(); E e = X.symb(64, cstr(s, A(0)), lo, hi); auto ln = make_shared<LogN>(); ln->name = cstr(s, A(0)); ln->e = e; ln->next = s.log; s.log = ln; s.ev++; if (s.model && !(lo <= 0 && 0 <= hi)) { auto nm = make_shared<Ctx::Model>(*s.model); (*nm)[e->aux] = (u128)lo & maskw(64); s.model = nm; } assume(s, X.and_(X.sle(A(1), e), X.sle(e, A(2)))); ret = e; return DONE; }
    if (n == "vc_assume") { E c = A(0); if (c->w != 1) c = X.ne(c, X.con(c->w, 0)); if (c->isConst()) { if (!c->c) throw PathEnd(); return DONE; } shared_ptr<Ctx::Model> m; int r = sat(s, c, &m); if (r == 0) throw PathEnd(); if (r == -1) { undecided(s, "assume"); m = nullptr; } assume(s, c); s.model = m; return DONE; }
    if (n == "vc_assert") { E c = A(0); if (c->w != 1) c = X.ne(c, X.con(c->w, 0)); require(s, c, cstr(s, A(1)), "assertion fails"); return DONE; }
    if (n == "vc_cover") { string id = cstr(s, A(0)); covers[id]++; return DONE; }
    if (n == "vc_end") throw PathEnd();
    if (n == "vc_fail") { fail(s, cstr(s, A(0)), a.size() > 1 ? cstr(s, A(1)) : "reached"); }
    if (n == "vc_note") { if (opt.verbose) { auto x = make_shared<LogN>(); x->name = "#" + cstr(s, A(0)); x->e = X.F; x->next = s.log; s.log = x; } return DONE; }
    if (n == "vc_havoc") { E d = concretize(s, A(0)); uint64_t sz = concretize(s, A(1))->u64(); string nm = cstr(s, A(2)); for (uint64_t i = 0; i < sz;) { unsigned l = std::min<uint64_t>(8, sz - i); store(s, X.add(d, X.con(64, i)), nondet(s, l * 8, nm)); i += l; } return DONE; }
    if (n == "vc_is_symbolic_engine") { ret = X.T; return DONE; }
    if (n == "vc_contract") { E p = concretize(s, A(1)); auto it = faddr.find(p->u64()); if (it == faddr.end()) throw Undecided{"vc_contract"}; contracts.push_back({cstr(s, A(0)), it->second}); return DONE; }
    if (n == "vc_merge") { if (!opt.noSubs && mergeSeen(s)) { nSub++; throw PathEnd(); } return DONE; }
    if (n == "vc_fork") { E c = A(0); if (c->w != 1) c = X.ne(c, X.con(c->w, 0)); ret = branch(s, c) ? X.T : X.F; return DONE; }
    if (n == "vc_concretize") { ret = concretize(s, A(0)); return DONE; }
    if (n == "vc_feasible") { E c = A(0); ret = X.boolc(sat(s, c) != 0); return DONE; }
    if (n == "vc_guard_add") { s.guards.push_back({A(0)->u64(), A(1)->u64(), A(2)->u64(), cstr(s, A(3))}); return DONE; }
    if (n == "vc_guard_clear") { s.guards.clear(); return DONE; }
    if (n == "vc_guard_pause") { s.guardPause++; return DONE; } if (n == "vc_guard_resume") { s.guardPause--; return DONE; }
    if (n == "vc_hooks_off") { s.hookOff++; return DONE; } if (n == "vc_hooks_on") { s.hookOff--; return DONE; }
    if (n == "vc_array_new") { auto o = make_shared<Obj>(); o->es = A(0)->u64(); o->len = A(1); o->base = (s.heapNext + 0xffff) & ~0xffffull; o->size = 1ull << 40; s.heapNext = o->base + o->size + 0x10000; o->name = cstr(s, A(2)); o->heap = true; o->akind = 9; o->arr = X.asym(o->es * 8, o->name); s.mem[o->base] = o; s.ev++; ret = X.con(64, o->base); return DONE; }
    if (n == "vc_array_havoc") { uint64_t b = A(0)->u64(); Obj& o = wr(s, b); o.arr = X.asym(o.es * 8, o.name); s.ev++; return DONE; }
    if (n == "vc_alive") { bool g; uint64_t x = concretize(s, A(0))->u64(); ret = X.boolc(x && findObj(s, x, g)); return DONE; }
    if (n == "vcx_alloc") { uint64_t sz = concretize(s, A(0))->u64(); if (sz > (1ull << 32)) throw Undecided{"huge allocation"}; ret = X.con(64, heapAlloc(s, sz, "heap", (int)A(1)->u64())); return DONE; }
    if (n == "vcx_free") { E p = concretize(s, A(0)); if (!p->c) return DONE; auto it = s.mem.find(p->u64()); if (it == s.mem.end() || !it->second->heap) fail(s, "mem.badfree", "free of invalid or already freed pointer"); if (it->second->akind != 9 && it->second->akind != (int)A(1)->u64()) fail(s, "mem.badfree", "mismatched deallocation"); obs["mem.badfree"].triv++; s.mem.erase(it); return DONE; }
    if (n == "vcx_heap_count") { unsigned c = 0; for (auto& o : s.mem) if (o.second->heap && !o.second->global && o.second->akind != 7) c++; // 7: texts of library exceptions, which the run-time stand-in never frees
      ret = X.con(64, c); return DONE; }
    if (n == "vcx_unwind") { uint64_t tok = A(0)->u64(), ti = A(1)->u64(), ob = A(2)->u64(); unwind(s, tok, ti, ob); return SWITCHED; }
    if (n == "vcx_dyncast") { uint64_t p = concretize(s, A(0))->u64(); uint64_t dst = A(1)->u64(); uint64_t vp = rd64(s, p); int64_t top = (int64_t)rd64(s, vp - 16); uint64_t ti = rd64(s, vp - 8); std::set<std::pair<uint64_t, bool>> r; subobj(s, ti, p + top, dst, true, r); std::set<uint64_t> u; for (auto& x : r) if (x.second) u.insert(x.first); ret = X.con(64, u.size() == 1 ? *u.begin() : 0); return DONE; }
    if (n == "vc_co_new") { unsigned id = A(0)->u64(); if (s.stacks.size() <= id) s.stacks.resize(id + 1); Function* fn = faddr[A(1)->u64()]; if (id == s.cur || !fn) throw Undecided{"co_new"}; State t; t.stackTop = STACK0 + ((uint64_t)id << 32); pushCall(t, fn, {a[2]}, nullptr); s.stacks[id].fr = t.fr; s.stacks[id].stackTop = t.stackTop; return DONE; }
    if (n == "vc_co_switch") { unsigned id = A(0)->u64(); if (id == s.cur) return DONE; if (id >= s.stacks.size() || s.stacks[id].fr.empty()) throw Undecided{"co_switch"}; advance(s); if (s.stacks.size() <= s.cur) s.stacks.resize(s.cur + 1); s.stacks[s.cur].fr = s.fr; s.stacks[s.cur].stackTop = s.stackTop; s.fr = s.stacks[id].fr; s.stackTop = s.stacks[id].stackTop; s.stacks[id].fr.clear(); s.cur = id; return SWITCHED; }
    if (n == "vcx_dump") { fprintf(stderr, "DUMP %s: ", cstr(s, A(0)).c_str()); if (A(1)->isConst()) fprintf(stderr, "%s\n", u128s(A(1)->c).c_str()); else { shared_ptr<Ctx::Model> m; sat(s, X.T, &m); fprintf(stderr, "sym w%d k%d %s\n", A(1)->w, (int)A(1)->k, A(1)->k == K::SYM ? X.syms[A(1)->aux].name.c_str() : ""); } return DONE; }
    return NOTFOUND;
  }
  if (n.compare(0, 5, "llvm.") == 0) {
    auto is = [&](const char* p) { return n.compare(0, strlen(p), p) == 0; };
    if (is("llvm.dbg") || is("llvm.lifetime.start") || is("llvm.invariant") || is("llvm.experimental.noalias") || is("llvm.assume") || is("llvm.prefetch") || is("llvm.stackrestore") || is("llvm.donothing")) { if (is("llvm.invariant.start")) ret = X.con(64, 0); return DONE; }
    if (is("llvm.lifetime.end")) { E p = A(1); if (p->isConst()) { bool g; ObjP* o = findObj(s, p->u64(), g); if (o && !g && (*o)->base == p->u64() && !(*o)->heap) { wr(s, p->u64()).cells.clear(); } } return DONE; }
    if (is("llvm.memcpy") || is("llvm.memmove")) { memcopy(s, A(0), A(1), concretize(s, A(2))->u64()); return DONE; }
    if (is("llvm.memset")) { memfill(s, A(0), A(1), concretize(s, A(2))->u64()); return DONE; }
    if (is("llvm.expect") || is("llvm.launder") || is("llvm.strip") || is("llvm.threadlocal") || is("llvm.ssa.copy")) { ret = a[0]; return DONE; }
    if (is("llvm.stacksave")) { ret = X.con(64, 0); return DONE; }
    if (is("llvm.is.constant")) { ret = X.F; return DONE; }
    if (is("llvm.objectsize")) { ret = X.con(64, ~0ull); return DONE; }
    if (is("llvm.trap") || is("llvm.ubsantrap") || is("llvm.debugtrap")) fail(s, "trap", "trap");
    if (is("llvm.eh.typeid.for")) { ret = X.con(32, typeidSel(A(0)->u64())); return DONE; }
    if (is("llvm.umul.with.overflow") || is("llvm.smul.with.overflow") || is("llvm.uadd.with.overflow") || is("llvm.sadd.with.overflow") || is("llvm.usub.with.overflow") || is("llvm.ssub.with.overflow")) {
      unsigned w = A(0)->w; bool sg = n[5] == 's'; string o = n.substr(6, 3); unsigned W = w <= 64 ? 2 * w : 128; E x = sg ? X.sext(A(0), W) : X.zext(A(0), W), y = sg ? X.sext(A(1), W) : X.zext(A(1), W); E r = o == "mul" ? X.mul(x, y) : o == "add" ? X.add(x, y) : X.sub(x, y); E lo = X.extract(r, 0, w); E ov = X.ne(sg ? X.sext(lo, W) : X.zext(lo, W), r);
      if (o == "mul" && A(1)->isConst() && A(1)->c && !sg) ov = X.ult(X.con(w, maskw(w) / A(1)->c), A(0)); ret.agg = make_shared<vector<Val>>(); ret.agg->push_back(lo); ret.agg->push_back(ov); return DONE; }
    if (is("llvm.umax")) { ret = X.ite(X.ult(A(0), A(1)), A(1), A(0)); return DONE; } if (is("llvm.umin")) { ret = X.ite(X.ult(A(0), A(1)), A(0), A(1)); return DONE; }
    if (is("llvm.smax")) { ret = X.ite(X.slt(A(0), A(1)), A(1), A(0)); return DONE; } if (is("llvm.smin")) { ret = X.ite(X.slt(A(0), A(1)), A(0), A(1)); return DONE; }
    if (is("llvm.abs")) { ret = X.ite(X.slt(A(0), X.con(A(0)->w, 0)), X.neg(A(0)), A(0)); return DONE; }
    if (is("llvm.ctlz") && A(0)->isConst()) { unsigned w = A(0)->w, c = 0; while (c < w && !((A(0)->c >> (w - 1 - c)) & 1)) c++; ret = X.con(w, c); return DONE; }
    if (is("llvm.cttz") && A(0)->isConst()) { unsigned w = A(0)->w, c = 0; while (c < w && !((A(0)->c >> c) & 1)) c++; ret = X.con(w, c); return DONE; }
    if (is("llvm.ctpop") && A(0)->isConst()) { unsigned c = 0; for (u128 v = A(0)->c; v; v &= v - 1) c++; ret = X.con(A(0)->w, c); return DONE; }
    if (is("llvm.fabs") && A(0)->isConst() && A(0)->w == 64) { ret = fromD(std::abs(asD(A(0)))); return DONE; }
    if (is("llvm.floor.f64") && A(0)->isConst()) { ret = fromD(__builtin_floor(asD(A(0)))); return DONE; } if (is("llvm.ceil.f64") && A(0)->isConst()) { ret = fromD(__builtin_ceil(asD(A(0)))); return DONE; }
    throw Undecided{"intrinsic " + n};
  }
  if (n == "memcpy" || n == "memmove") { memcopy(s, A(0), A(1), concretize(s, A(2))->u64()); ret = A(0); return DONE; }
  if (n == "memset") { memfill(s, A(0), X.extract(A(1), 0, 8), concretize(s, A(2))->u64()); ret = A(0); return DONE; }
  if (n == "strlen") { ret = X.con(64, cstr(s, A(0)).size()); return DONE; }
  if (n == "strcmp") { int r = cstr(s, A(0)).compare(cstr(s, A(1))); ret = X.con(32, (u128)(i128)r); return DONE; }
  if (n == "abort" || n == "_ZSt9terminatev" || n == "__clang_call_terminate" || n == "_exit" || n == "exit") fail(s, "terminate", "program terminates (" + n + ")");
  if (n == "__assert_fail") fail(s, "assert", "assertion failure: " + cstr(s, A(0)));
  if (n == "__cxa_pure_virtual" || n == "__cxa_deleted_virtual") fail(s, "purevirtual", "pure virtual call");
  if (n == "__cxa_atexit" || n == "atexit" || n == "__cxa_thread_atexit") { ret = X.con(32, 0); return DONE; }
  if (n == "__cxa_guard_acquire") { E g = load(s, A(0), 8); ret = X.zext(X.eq(g, X.con(8, 0)), 32); return DONE; }
  if (n == "__cxa_guard_release") { store(s, A(0), X.con(8, 1)); return DONE; }
  if (n == "__cxa_guard_abort") return DONE;
  return NOTFOUND;
}

// ---------------------------------------------------------------- step
static bool doCall(State& s, CallBase* cb) { // returns true when frame switched
  Frame& f = *s.fr.back(); vector<Val> args; for (auto& a : cb->args()) { if (a->getType()->isMetadataTy()) { args.push_back(X.con(1, 0)); continue; } args.push_back(getv(s, f, a.get())); }
  if (cb->isInlineAsm()) { if (!cb->getType()->isVoidTy()) throw Undecided{"inline asm"}; return false; }
  Function* fn = dyn_cast<Function>(cb->getCalledOperand()->stripPointerCasts());
  if (!fn) { if (auto* al = dyn_cast<GlobalAlias>(cb->getCalledOperand())) fn = dyn_cast<Function>(al->getAliaseeObject()); }
  if (!fn) { E p = concretize(s, get(s, cb->getCalledOperand())); auto it = faddr.find(p->u64()); if (it == faddr.end()) fail(s, p->u64() < 4096 ? "mem.null" : "mem.badcall", "indirect call of invalid function pointer " + hx(p->u64())); fn = it->second; }
  string n = fn->getName().str();
  if (!contracts.empty() && f.fi->repo && !fn->isDeclaration()) { string& dn = info(fn)->name; for (auto& c : contracts) if (dn.find(c.first) != string::npos) { if (c.second->arg_size() != fn->arg_size()) throw Undecided{"contract of " + dn + " has another signature"}; usedContracts.insert(dn); fn = c.second; n = fn->getName().str(); break; } }
  // byval arguments: copy
  for (unsigned i = 0; i < cb->arg_size(); i++) if (cb->isByValArgument(i) && !fn->isDeclaration()) { uint64_t sz = DL->getTypeAllocSize(cb->getParamByValType(i)); auto o = make_shared<Obj>(); o->base = s.stackTop; o->size = sz; o->name = "byval"; s.stackTop += ((sz + 15) & ~15ull) + 32; s.mem[o->base] = o; s.top().allocas.push_back(o->base); memcopy(s, X.con(64, o->base), args[i].e, sz); args[i] = X.con(64, o->base); }
  if (!fn->isDeclaration()) { pushCall(s, fn, args, cb); return true; }
  Val ret; R r = builtin(s, cb, n, args, ret);
  if (r == NOTFOUND) throw Undecided{"call to external function " + demangle(n)};
  if (r == SWITCHED) return true;
  if (!cb->getType()->isVoidTy()) { assert(ret.e || ret.agg); set(s, cb, ret); }
  return false;
}
// before every atomic access made by code under verification the environment may act (function vc_atomic_hook)
static bool atomicHook(State& s, Instruction* I, E p) {
  if (!hookFn || s.hookOff) return false; Frame& f = *s.fr.back(); if (f.fi->verif) return false;
  if (s.hookDone == (int)s.fr.size()) { s.hookDone = -1; return false; }
  bool g; ObjP* o = p->isConst() ? findObj(s, hookOn, g) : nullptr; if (!o) return false; E on = load(s, X.con(64, hookOn), 32); if (!on->isConst() || !on->c) return false;
  s.hookDone = (int)s.fr.size(); unsigned k = isa<LoadInst>(I) ? 0 : isa<StoreInst>(I) ? 1 : 2; vector<Val> a; a.push_back(p); a.push_back(X.con(32, k)); pushCall(s, hookFn, a, nullptr); return true;
}
static void step(State& s) {
  Frame& f = *s.fr.back(); Instruction* I = &*f.it; nInstr++;
  switch (I->getOpcode()) {
  case Instruction::Alloca: { auto* a = cast<AllocaInst>(I); E cnt = concretize(s, get(s, a->getArraySize())); uint64_t sz = (uint64_t)DL->getTypeAllocSize(a->getAllocatedType()) * cnt->u64(); auto o = make_shared<Obj>(); o->base = s.stackTop; o->size = sz; o->name = (f.fi->f->getName() + ":" + a->getName()).str(); s.stackTop += ((sz + 63) & ~63ull) + 64; s.mem[o->base] = o; s.top().allocas.push_back(o->base); set(s, I, X.con(64, o->base)); break; }
  case Instruction::Load: { auto* l = cast<LoadInst>(I); E p = get(s, l->getPointerOperand()); if (!p->isConst()) { } if (l->isAtomic() && atomicHook(s, I, p)) return; guardCheck(s, p, DL->getTypeStoreSize(l->getType()), false); set(s, I, loadT(s, p, l->getType())); break; }
  case Instruction::Store: { auto* l = cast<StoreInst>(I); E p = get(s, l->getPointerOperand()); if (l->isAtomic() && atomicHook(s, I, p)) return; guardCheck(s, p, DL->getTypeStoreSize(l->getValueOperand()->getType()), true); storeT(s, p, getv(s, *s.fr.back(), l->getValueOperand()), l->getValueOperand()->getType()); break; }
  case Instruction::GetElementPtr: { auto* g = cast<GetElementPtrInst>(I); E p = get(s, g->getPointerOperand()); for (auto gi = gep_type_begin(g), ge = gep_type_end(g); gi != ge; ++gi) { if (auto* st = gi.getStructTypeOrNull()) p = X.add(p, X.con(64, DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(gi.getOperand())->getZExtValue()))); else { E ix = X.sext(get(s, gi.getOperand()), 64); p = X.add(p, X.mul(ix, X.con(64, DL->getTypeAllocSize(gi.getIndexedType())))); } } set(s, I, p); break; }
  case Instruction::ICmp: { auto* c = cast<ICmpInst>(I); set(s, I, icmp(c->getPredicate(), get(s, c->getOperand(0)), get(s, c->getOperand(1)))); break; }
  case Instruction::Select: { auto* c = cast<SelectInst>(I); E cd = get(s, c->getCondition()); Val a = getv(s, f, c->getTrueValue()), b = getv(s, f, c->getFalseValue()); if (cd->isConst()) set(s, I, cd->c ? a : b); else if (a.e && !(c->getType()->isPointerTy())) set(s, I, X.ite(cd, a.e, b.e)); else { bool t = branch(s, cd); set(s, I, t ? a : b); } break; }
  case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem: case Instruction::SRem: { E a = get(s, I->getOperand(0)), b = get(s, I->getOperand(1)); require(s, X.ne(b, X.con(b->w, 0)), "div.zero", "division by zero"); E r = divrem(s, I->getOpcode(), a, b); set(s, I, r); break; }
  case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::And: case Instruction::Or: case Instruction::Xor: case Instruction::Shl: case Instruction::LShr: case Instruction::AShr: set(s, I, bin(I->getOpcode(), get(s, I->getOperand(0)), get(s, I->getOperand(1)))); break;
  case Instruction::Trunc: case Instruction::ZExt: case Instruction::SExt: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::BitCast: case Instruction::AddrSpaceCast: set(s, I, castE(I->getOpcode(), get(s, I->getOperand(0)), bitsOf(I->getType()))); break;
  case Instruction::Freeze: set(s, I, getv(s, f, I->getOperand(0))); break;
  case Instruction::ExtractValue: { auto* e = cast<ExtractValueInst>(I); Val v = getv(s, f, e->getAggregateOperand()); for (unsigned i : e->indices()) { Val t = (*v.agg)[i]; v = t; } set(s, I, v); break; }
  case Instruction::InsertValue: { auto* e = cast<InsertValueInst>(I); Val v = getv(s, f, e->getAggregateOperand()); std::function<Val(const Val&, ArrayRef<unsigned>)> ins = [&](const Val& b, ArrayRef<unsigned> ix) -> Val { if (ix.empty()) return getv(s, f, e->getInsertedValueOperand()); Val r; r.agg = make_shared<vector<Val>>(*b.agg); (*r.agg)[ix[0]] = ins((*b.agg)[ix[0]], ix.slice(1)); return r; }; set(s, I, ins(v, e->getIndices())); break; }
  case Instruction::Br: { auto* b = cast<BranchInst>(I); if (b->isUnconditional()) jump(s, b->getSuccessor(0)); else { bool t = branch(s, get(s, b->getCondition())); jump(s, b->getSuccessor(t ? 0 : 1)); } return; }
  case Instruction::Switch: { auto* w = cast<SwitchInst>(I); E c = get(s, w->getCondition()); for (auto& cs : w->cases()) { E q = X.eq(c, constVal(cs.getCaseValue()).e); if (branch(s, q)) { jump(s, cs.getCaseSuccessor()); return; } } jump(s, w->getDefaultDest()); return; }
  case Instruction::Ret: { auto* r = cast<ReturnInst>(I); Val v; if (r->getReturnValue()) v = getv(s, f, r->getReturnValue()); if (s.fr.size() == 1) { if (s.cur != 0) throw Undecided{"return from coroutine"}; throw PathEnd(); } CallBase* cb = f.call; popFrame(s); if (!cb) { return; } Frame& c = s.top(); if (!cb->getType()->isVoidTy()) c.regs[c.fi->idx[cb]] = v; advance(s); return; }
  case Instruction::Unreachable: fail(s, "unreachable", "unreachable code reached");
  case Instruction::Call: case Instruction::Invoke: { if (doCall(s, cast<CallBase>(I))) return; advance(s); return; }
  case Instruction::Resume: { Val v = getv(s, f, I->getOperand(0)); uint64_t tok = (*v.agg)[0].e->u64(); uint64_t ti = rd64(s, tok + 16), ob = rd64(s, tok); if (s.fr.size() == 1) fail(s, "uncaught", "uncaught exception"); popFrame(s); unwind(s, tok, ti, ob); return; }
  case Instruction::AtomicRMW: { auto* a = cast<AtomicRMWInst>(I); E p = get(s, a->getPointerOperand()); if (atomicHook(s, I, p)) return; E v = get(s, a->getValOperand()); guardCheck(s, p, v->w / 8, true); E o = load(s, p, v->w); E n; switch (a->getOperation()) { case AtomicRMWInst::Add: n = X.add(o, v); break; case AtomicRMWInst::Sub: n = X.sub(o, v); break; case AtomicRMWInst::Xchg: n = v; break; case AtomicRMWInst::And: n = X.and_(o, v); break; case AtomicRMWInst::Or: n = X.or_(o, v); break; case AtomicRMWInst::Xor: n = X.xor_(o, v); break; default: throw Undecided{"rmw"}; } store(s, p, n); set(s, I, o); break; }
  case Instruction::AtomicCmpXchg: { auto* a = cast<AtomicCmpXchgInst>(I); E p = get(s, a->getPointerOperand()); if (atomicHook(s, I, p)) return; E c = get(s, a->getCompareOperand()), n = get(s, a->getNewValOperand()); E o = load(s, p, c->w); bool eq = branch(s, X.eq(o, c)); if (eq) store(s, p, n); Val v; v.agg = make_shared<vector<Val>>(); v.agg->push_back(o); v.agg->push_back(X.boolc(eq)); set(s, I, v); break; }
  case Instruction::Fence: break;
  case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: { E a = get(s, I->getOperand(0)), b = get(s, I->getOperand(1)); if (!I->getType()->isDoubleTy() || !a->isConst() || !b->isConst()) throw Undecided{"floating point"}; double x = asD(a), y = asD(b); set(s, I, fromD(I->getOpcode() == Instruction::FAdd ? x + y : I->getOpcode() == Instruction::FSub ? x - y : I->getOpcode() == Instruction::FMul ? x * y : x / y)); break; }
  case Instruction::SIToFP: case Instruction::UIToFP: { E a = get(s, I->getOperand(0)); if (!I->getType()->isDoubleTy() || !a->isConst()) throw Undecided{"floating point"}; set(s, I, fromD(I->getOpcode() == Instruction::SIToFP ? (double)(int64_t)sx(a->c, a->w) : (double)a->u64())); break; }
  case Instruction::FPToSI: case Instruction::FPToUI: { E a = get(s, I->getOperand(0)); if (!a->isConst() || a->w != 64) throw Undecided{"floating point"}; double d = asD(a); set(s, I, X.con(bitsOf(I->getType()), I->getOpcode() == Instruction::FPToSI ? (u128)(i128)(int64_t)d : (u128)(uint64_t)d)); break; }
  case Instruction::FCmp: { auto* c = cast<FCmpInst>(I); E a = get(s, I->getOperand(0)), b = get(s, I->getOperand(1)); if (!a->isConst() || !b->isConst() || a->w != 64) throw Undecided{"floating point"}; double x = asD(a), y = asD(b); bool r; switch (c->getPredicate()) { case CmpInst::FCMP_OEQ: case CmpInst::FCMP_UEQ: r = x == y; break; case CmpInst::FCMP_OLT: case CmpInst::FCMP_ULT: r = x < y; break; case CmpInst::FCMP_OLE: case CmpInst::FCMP_ULE: r = x <= y; break; case CmpInst::FCMP_OGT: case CmpInst::FCMP_UGT: r = x > y; break; case CmpInst::FCMP_OGE: case CmpInst::FCMP_UGE: r = x >= y; break; case CmpInst::FCMP_UNE: case CmpInst::FCMP_ONE: r = x != y; break; default: throw Undecided{"fcmp"}; } set(s, I, X.boolc(r)); break; }
  case Instruction::FNeg: { E a = get(s, I->getOperand(0)); if (!a->isConst() || a->w != 64) throw Undecided{"floating point"}; set(s, I, fromD(-asD(a))); break; }
  default: { string t; raw_string_ostream os(t); I->print(os); throw Undecided{"instruction " + t}; }
  }
  ++s.top().it;
}
static string jesc(const string& s) { string r; for (unsigned char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c < 32) r += ' '; else r += c; } return r; }
static void runOne(State& s) {
  try { while (true) { if ((nInstr & 1023) == 0 && now() - t0 > opt.timeout) { undec["time limit"]++; work.clear(); return; } step(s); } }
  catch (PathEnd&) {} catch (Undecided& u) { undecided(s, u.why); if (opt.verbose) for (auto& x : stackTrace(s)) fprintf(stderr, "   %s\n", x.c_str()); }
}
int main(int argc, char** argv) {
  t0 = now(); string bc, out; vector<string> entries; { struct rlimit rl; getrlimit(RLIMIT_STACK, &rl); }
  for (int i = 1; i < argc; i++) { string a = argv[i]; if (a == "-e") entries.push_back(argv[++i]); else if (a == "-o") out = argv[++i]; else if (a == "-v") opt.verbose = true; else if (a == "-t") opt.trace = true; else if (a == "--timeout") opt.timeout = atof(argv[++i]); else if (a == "--qtimeout") opt.qtimeout = atoi(argv[++i]); else if (a == "--bound") opt.loopBound = atoi(argv[++i]); else if (a == "--bounded") { opt.bounded = true; } else if (a == "--nocross") opt.noCross = true; else if (a == "--nosubs") opt.noSubs = true; else bc = a; }
  LLVMContext C; SMDiagnostic err; auto mod = parseIRFile(bc, err, C); if (!mod) { err.print("vc", errs()); return 2; } M = mod.get(); DL = &M->getDataLayout(); zz = new Z; zi = new ZI(zz);
  if (entries.empty()) { for (auto& f : *M) if (f.getName().starts_with("entry_") && !f.isDeclaration()) printf("%s\n", f.getName().str().c_str()); return 0; }
  for (auto& f : *M) addrOf(&f); for (auto& g : M->globals()) addrOf(&g); for (auto& g : M->aliases()) addrOf(&g);
  hookFn = M->getFunction("vc_atomic_hook"); if (hookFn && hookFn->isDeclaration()) hookFn = nullptr; if (auto* g = M->getGlobalVariable("vc_atomic_hook_on")) hookOn = addrOf(g); else hookFn = nullptr;
  Function* ef = M->getFunction(entries[0]); if (!ef || ef->isDeclaration()) { fprintf(stderr, "no entry %s\n", entries[0].c_str()); return 2; }
  // global constructors, then the entry
  vector<Function*> init; if (auto* gc = M->getGlobalVariable("llvm.global_ctors")) { auto* ca = dyn_cast<ConstantArray>(gc->getInitializer()); vector<std::pair<uint64_t, Function*>> v; if (ca) for (auto& o : ca->operands()) { auto* cs = cast<ConstantStruct>(o.get()); v.push_back({cast<ConstantInt>(cs->getOperand(0))->getZExtValue(), cast<Function>(cs->getOperand(1)->stripPointerCasts())}); } std::stable_sort(v.begin(), v.end(), [](auto& a, auto& b) { return a.first < b.first; }); for (auto& x : v) init.push_back(x.second); }
  auto st = make_shared<State>(); st->heapNext = HEAP0; st->stackTop = STACK0; st->model = make_shared<Ctx::Model>();
  pushCall(*st, ef, {}, nullptr); for (size_t i = init.size(); i-- > 0;) { pushCall(*st, init[i], {}, nullptr); }
  // frames with call==nullptr simply return to the frame below; the entry is the bottom frame
  work.push_back(st);
  while (!work.empty()) { auto s = work.back(); work.pop_back(); nPaths++; if (nPaths > opt.maxPaths) { undec["path limit"]++; break; } runOne(*s); }
  FILE* o = out.empty() ? stdout : fopen(out.c_str(), "w"); if (!o) { perror("out"); return 2; }
  fprintf(o, "{\"entry\":\"%s\",\"paths\":%llu,\"instructions\":%llu,\"queries\":%llu,\"subsumed\":%llu,\"bounded_cut\":%llu,\"solver_s\":%.3f,\"wall_s\":%.3f,\n\"obligations\":{", entries[0].c_str(), (unsigned long long)nPaths, (unsigned long long)nInstr, (unsigned long long)nQueries, (unsigned long long)nSub, (unsigned long long)nBounded, tSolver, now() - t0);
  bool first = true; for (auto& x : obs) { fprintf(o, "%s\"%s\":{\"simplifier\":%llu,\"z3\":%llu,\"fallback\":%llu,\"failed\":%llu,\"undecided\":%llu}", first ? "" : ",", jesc(x.first).c_str(), (unsigned long long)x.second.triv, (unsigned long long)x.second.z3, (unsigned long long)x.second.alt, (unsigned long long)x.second.failed, (unsigned long long)x.second.undecided); first = false; }
  fprintf(o, "},\n\"covers\":{"); first = true; for (auto& x : covers) { fprintf(o, "%s\"%s\":%llu", first ? "" : ",", jesc(x.first).c_str(), (unsigned long long)x.second); first = false; }
  fprintf(o, "},\n\"undecided\":{"); first = true; for (auto& x : undec) { fprintf(o, "%s\"%s\":%u", first ? "" : ",", jesc(x.first).c_str(), x.second); first = false; }
  fprintf(o, "},\n\"functions\":["); first = true; for (auto& x : repoFns) { fprintf(o, "%s\"%s\"", first ? "" : ",", jesc(x).c_str()); first = false; }
  fprintf(o, "],\n\"violations\":["); first = true; for (auto& v : viols) { fprintf(o, "%s\n{\"id\":\"%s\",\"where\":\"%s\",\"msg\":\"%s\",\"exact\":%s,\"stack\":[", first ? "" : ",", jesc(v.id).c_str(), jesc(v.where).c_str(), jesc(v.msg).c_str(), v.exact ? "true" : "false"); bool f2 = true; for (auto& x : v.stack) { fprintf(o, "%s\"%s\"", f2 ? "" : ",", jesc(x).c_str()); f2 = false; } fprintf(o, "],\"log\":["); f2 = true; for (auto& l : v.log) { fprintf(o, "%s[\"%s\",\"%s\"]", f2 ? "" : ",", jesc(l.first).c_str(), l.second.c_str()); f2 = false; } fprintf(o, "]}"); first = false; }
  fprintf(o, "]}\n"); if (o != stdout) fclose(o); fflush(stdout); _exit(0);
}
