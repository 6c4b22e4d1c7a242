// Hash-consed bit-vector / array expressions with aggressive constant folding.
#pragma once
#include <cstdint>
#include <string>
#include <vector>
#include <unordered_map>
#include <unordered_set>
#include <map>
#include <functional>
#include <cassert>
#include <cstring>
typedef unsigned __int128 u128;
typedef __int128 i128;
enum class K : uint8_t { CONST, SYM, ADD, SUB, MUL, UDIV, SDIV, UREM, SREM, AND, OR, XOR, SHL, LSHR, ASHR, CONCAT, EXTRACT, ZEXT, SEXT, ITE, EQ, ULT, ULE, SLT, SLE, ASYM, ASTORE, ASELECT };
struct Expr {
  K k; uint16_t w; bool hasSym; bool hasArr; bool hard; uint32_t id; uint32_t aux; u128 c; const Expr *a, *b, *d;
  bool isConst() const { return k == K::CONST; }
  uint64_t u64() const { return (uint64_t)c; }
};
typedef const Expr* E;
static inline u128 maskw(unsigned w) { return w >= 128 ? ~(u128)0 : (((u128)1 << w) - 1); }
static inline i128 sx(u128 v, unsigned w) { if (w >= 128) return (i128)v; u128 m = (u128)1 << (w - 1); v &= maskw(w); return (i128)((v ^ m) - m); }

struct SymInfo { std::string name; uint16_t w; bool arr; bool bounded = false; i128 lo = 0, hi = 0; };
struct ExprHash { size_t operator()(E e) const {
  uint64_t h = (uint64_t)e->k * 1000003u + e->w; h = h * 0x9E3779B97F4A7C15ull + e->aux; h ^= h >> 29;
  h = h * 0x9E3779B97F4A7C15ull + (uint64_t)e->c; h = h * 31 + (uint64_t)(e->c >> 64);
  h = h * 0x9E3779B97F4A7C15ull + (uint64_t)(uintptr_t)e->a; h ^= h >> 31; h = h * 0x9E3779B97F4A7C15ull + (uint64_t)(uintptr_t)e->b; h ^= h >> 31;
  h = h * 0x9E3779B97F4A7C15ull + (uint64_t)(uintptr_t)e->d; return h ^ (h >> 32); } };
struct ExprEq { bool operator()(E x, E y) const { return x->k == y->k && x->w == y->w && x->aux == y->aux && x->c == y->c && x->a == y->a && x->b == y->b && x->d == y->d; } };

struct Ctx {
  std::unordered_set<E, ExprHash, ExprEq> tab;
  std::vector<E> all;
  std::vector<SymInfo> syms;
  E T, F;
  Ctx() { T = con(1, 1); F = con(1, 0); }
  E mk(K k, unsigned w, E a = nullptr, E b = nullptr, E d = nullptr, uint32_t aux = 0, u128 c = 0) {
    Expr t; t.k = k; t.w = (uint16_t)w; t.a = a; t.b = b; t.d = d; t.aux = aux; t.c = c;
    auto it = tab.find(&t); if (it != tab.end()) return *it;
    Expr* n = new Expr(t); n->id = (uint32_t)all.size();
    n->hasSym = k == K::SYM || k == K::ASYM || (a && a->hasSym) || (b && b->hasSym) || (d && d->hasSym);
    n->hasArr = k == K::ASYM || (a && a->hasArr) || (b && b->hasArr) || (d && d->hasArr);
    n->hard = (a && a->hard) || (b && b->hard) || (d && d->hard) || (k == K::MUL && w >= 32 && !(b->isConst() && (b->c & (b->c - 1)) == 0)) || (k == K::UDIV && w >= 32) || (k == K::SDIV && w >= 32) || (k == K::UREM && w >= 32) || (k == K::SREM && w >= 32) || (k == K::SYM && syms[aux].bounded && w >= 32);
    all.push_back(n); tab.insert(n); return n;
  }
  E con(unsigned w, u128 v) { return mk(K::CONST, w, nullptr, nullptr, nullptr, 0, v & maskw(w)); }
  E boolc(bool b) { return b ? T : F; }
  E sym(unsigned w, const std::string& n) { uint32_t id = (uint32_t)syms.size(); syms.push_back({n, (uint16_t)w, false}); return mk(K::SYM, w, nullptr, nullptr, nullptr, id); }
  E symb(unsigned w, const std::string& n, i128 lo, i128 hi) { uint32_t id = (uint32_t)syms.size(); syms.push_back({n, (uint16_t)w, false, true, lo, hi}); return mk(K::SYM, w, nullptr, nullptr, nullptr, id); }
  E asym(unsigned ew, const std::string& n) { uint32_t id = (uint32_t)syms.size(); syms.push_back({n, (uint16_t)ew, true}); return mk(K::ASYM, ew, nullptr, nullptr, nullptr, id); }
  E astore(E arr, E idx, E v) { return mk(K::ASTORE, arr->w, arr, idx, v); }
  E aselect(E arr, E idx) {
    while (arr->k == K::ASTORE) {
      if (arr->b == idx) return arr->d;
      if (arr->b->isConst() && idx->isConst()) { arr = arr->a; continue; }
      // x+c1 vs x+c2
      E bx, ix; u128 bc, ic; splitAdd(arr->b, bx, bc); splitAdd(idx, ix, ic);
      if (bx == ix && bc != ic) { arr = arr->a; continue; }
      break;
    }
    return mk(K::ASELECT, arr->w, arr, idx);
  }
  void splitAdd(E e, E& x, u128& c) { if (e->k == K::ADD && e->b->isConst()) { x = e->a; c = e->b->c; } else if (e->isConst()) { x = nullptr; c = e->c; } else { x = e; c = 0; } }
  E notb(E e) { assert(e->w == 1);
    if (e->isConst()) return boolc(!e->c);
    if (e->k == K::XOR && e->b == T) return e->a;
    if (e->k == K::ULT) return ule(e->b, e->a); if (e->k == K::ULE) return ult(e->b, e->a);
    if (e->k == K::SLT) return sle(e->b, e->a); if (e->k == K::SLE) return slt(e->b, e->a);
    return mk(K::XOR, 1, e, T); }
  E add(E a, E b) {
    unsigned w = a->w;
    if (a->isConst() && b->isConst()) return con(w, a->c + b->c);
    if (a->isConst()) std::swap(a, b);
    if (b->isConst()) {
      if (b->c == 0) return a;
      if (a->k == K::ADD && a->b->isConst()) return add(a->a, con(w, a->b->c + b->c));
      if (a->k == K::ITE && (a->b->isConst() || a->d->isConst()) && w > 1) return ite(a->a, add(a->b, b), add(a->d, b));
      if (w == 1) return b->c ? notb(a) : a;
      return mk(K::ADD, w, a, b);
    }
    // keep constant outermost
    if (a->k == K::ADD && a->b->isConst()) return add(add(a->a, b), a->b);
    if (b->k == K::ADD && b->b->isConst()) return add(add(a, b->a), b->b);
    if (a->k == K::SUB && a->b == b) return a->a;
    if (b->k == K::SUB && b->b == a) return b->a;
    if (a->id > b->id) std::swap(a, b);
    return mk(K::ADD, w, a, b);
  }
  E neg(E a) { return sub(con(a->w, 0), a); }
  E sub(E a, E b) {
    unsigned w = a->w;
    if (a == b) return con(w, 0);
    if (b->isConst()) return add(a, con(w, (u128)0 - b->c));
    if (a->k == K::ADD) { if (a->a == b) return a->b; if (a->b == b) return a->a; }
    if (a->k == K::ADD && a->b->isConst()) return add(sub(a->a, b), a->b);
    if (b->k == K::ADD && b->b->isConst()) return add(sub(a, b->a), con(w, (u128)0 - b->b->c));
    if (a->isConst() && b->isConst()) return con(w, a->c - b->c);
    if (a->k == K::SUB && b->k == K::SUB && a->b == b->b) return sub(a->a, b->a);
    return mk(K::SUB, w, a, b);
  }
  E mul(E a, E b) {
    unsigned w = a->w;
    if (a->isConst() && b->isConst()) return con(w, a->c * b->c);
    if (a->isConst()) std::swap(a, b);
    if (b->isConst()) { if (b->c == 0) return b; if (b->c == 1) return a;
      if (a->k == K::MUL && a->b->isConst()) return mul(a->a, con(w, a->b->c * b->c));
      if (a->k == K::ADD && a->b->isConst()) return add(mul(a->a, b), con(w, a->b->c * b->c)); }
    else if (a->id > b->id) std::swap(a, b);
    return mk(K::MUL, w, a, b);
  }
  E udiv(E a, E b) { if (b->isConst() && b->c) { if (a->isConst()) return con(a->w, a->c / b->c); if (b->c == 1) return a;
      if ((b->c & (b->c - 1)) == 0) return lshr(a, con(a->w, ctz(b->c))); } return mk(K::UDIV, a->w, a, b); }
  E urem(E a, E b) { if (b->isConst() && b->c) { if (a->isConst()) return con(a->w, a->c % b->c); if (b->c == 1) return con(a->w, 0);
      if ((b->c & (b->c - 1)) == 0) return and_(a, con(a->w, b->c - 1)); } return mk(K::UREM, a->w, a, b); }
  static unsigned ctz(u128 v) { unsigned n = 0; while (!(v & 1)) { v >>= 1; n++; } return n; }
  E sdiv(E a, E b) { if (b->isConst() && b->c) { if (b->c == 1) return a; if (a->isConst()) { i128 x = sx(a->c, a->w), y = sx(b->c, b->w); if (y == -1) return con(a->w, (u128)(-x)); return con(a->w, (u128)(x / y)); } } return mk(K::SDIV, a->w, a, b); }
  E srem(E a, E b) { if (b->isConst() && b->c) { if (b->c == 1) return con(a->w, 0); if (a->isConst()) { i128 x = sx(a->c, a->w), y = sx(b->c, b->w); if (y == -1) return con(a->w, 0); return con(a->w, (u128)(x % y)); } } return mk(K::SREM, a->w, a, b); }
  E and_(E a, E b) {
    if (a == b) return a;
    if (a->isConst() && b->isConst()) return con(a->w, a->c & b->c);
    if (a->isConst()) std::swap(a, b);
    if (b->isConst()) { if (b->c == 0) return b; if (b->c == maskw(b->w)) return a;
      if (a->k == K::AND && a->b->isConst()) return and_(a->a, con(a->w, a->b->c & b->c));
      if (a->k == K::OR && a->b->isConst() && (a->b->c & b->c) == 0) return and_(a->a, b);
      if (a->k == K::ZEXT) { if ((b->c & maskw(a->a->w)) == maskw(a->a->w)) return a; if ((b->c & maskw(a->a->w)) == 0) return con(a->w, 0); }
      if (a->k == K::ITE && (a->b->isConst() && a->d->isConst())) return ite(a->a, and_(a->b, b), and_(a->d, b)); }
    else { if (a->w == 1 && (a == notb(b))) return F; if (a->id > b->id) std::swap(a, b); }
    if (a->k == K::ZEXT && b->k == K::ZEXT && a->a->w == b->a->w) return zext(and_(a->a, b->a), a->w);
    if (a->k == K::ZEXT && b->isConst()) return zext(and_(a->a, con(a->a->w, b->c)), a->w);
    return mk(K::AND, a->w, a, b);
  }
  E or_(E a, E b) {
    if (a == b) return a;
    if (a->isConst() && b->isConst()) return con(a->w, a->c | b->c);
    if (a->isConst()) std::swap(a, b);
    if (b->isConst()) { if (b->c == 0) return a; if (b->c == maskw(b->w)) return b;
      if (a->k == K::OR && a->b->isConst()) return or_(a->a, con(a->w, a->b->c | b->c));
      if (a->k == K::ITE && (a->b->isConst() && a->d->isConst())) return ite(a->a, or_(a->b, b), or_(a->d, b)); }
    else { if (a->w == 1 && (a == notb(b))) return T; if (a->id > b->id) std::swap(a, b); }
    if (a->k == K::ZEXT && b->k == K::ZEXT && a->a->w == b->a->w) return zext(or_(a->a, b->a), a->w);
    if (a->k == K::ZEXT && b->isConst() && !(b->c >> a->a->w)) return zext(or_(a->a, con(a->a->w, b->c)), a->w);
    return mk(K::OR, a->w, a, b);
  }
  E xor_(E a, E b) {
    if (a == b) return con(a->w, 0);
    if (a->isConst() && b->isConst()) return con(a->w, a->c ^ b->c);
    if (a->isConst()) std::swap(a, b);
    if (b->isConst()) { if (b->c == 0) return a; if (a->w == 1) return notb(a);
      if (a->k == K::XOR && a->b->isConst()) return xor_(a->a, con(a->w, a->b->c ^ b->c));
      if (a->k == K::ZEXT && a->a->w == 1 && b->c == 1) return zext(notb(a->a), a->w); }
    else if (a->id > b->id) std::swap(a, b);
    if (a->k == K::ZEXT && b->k == K::ZEXT && a->a->w == b->a->w) return zext(xor_(a->a, b->a), a->w);
    if (a->k == K::ZEXT && b->isConst() && !(b->c >> a->a->w)) return zext(xor_(a->a, con(a->a->w, b->c)), a->w);
    return mk(K::XOR, a->w, a, b);
  }
  E shl(E a, E b) { if (b->isConst()) { if (b->c >= a->w) return con(a->w, 0); if (b->c == 0) return a; if (a->isConst()) return con(a->w, a->c << (unsigned)b->c);
      return mul(a, con(a->w, (u128)1 << (unsigned)b->c)); } return mk(K::SHL, a->w, a, b); }
  E lshr(E a, E b) { if (b->isConst()) { if (b->c >= a->w) return con(a->w, 0); if (b->c == 0) return a; if (a->isConst()) return con(a->w, a->c >> (unsigned)b->c);
      unsigned s = (unsigned)b->c; return zext(extract(a, s, a->w - s), a->w); } return mk(K::LSHR, a->w, a, b); }
  E ashr(E a, E b) { if (b->isConst()) { unsigned s = b->c >= a->w ? a->w - 1 : (unsigned)b->c; if (s == 0) return a; if (a->isConst()) return con(a->w, (u128)(sx(a->c, a->w) >> s));
      return sext(extract(a, s, a->w - s), a->w); } return mk(K::ASHR, a->w, a, b); }
  E zext(E a, unsigned w) { if (a->w == w) return a; if (a->isConst()) return con(w, a->c); if (a->k == K::ZEXT) return zext(a->a, w);
    if (a->k == K::ITE && a->b->isConst() && a->d->isConst()) return ite(a->a, zext(a->b, w), zext(a->d, w)); return mk(K::ZEXT, w, a); }
  E sext(E a, unsigned w) { if (a->w == w) return a; if (a->isConst()) return con(w, (u128)sx(a->c, a->w)); if (a->k == K::ZEXT) return zext(a->a, w); if (a->k == K::SEXT) return sext(a->a, w);
    if (a->k == K::ITE && a->b->isConst() && a->d->isConst()) return ite(a->a, sext(a->b, w), sext(a->d, w)); return mk(K::SEXT, w, a); }
  E extract(E a, unsigned lo, unsigned w) {
    if (lo == 0 && w == a->w) return a;
    if (a->isConst()) return con(w, a->c >> lo);
    if (a->k == K::EXTRACT) return extract(a->a, a->aux + lo, w);
    if (a->k == K::CONCAT) { unsigned lw = a->b->w; if (lo >= lw) return extract(a->a, lo - lw, w); if (lo + w <= lw) return extract(a->b, lo, w);
      return concat(extract(a->a, 0, lo + w - lw), extract(a->b, lo, lw - lo)); }
    if (a->k == K::ZEXT || a->k == K::SEXT) { unsigned iw = a->a->w; if (lo + w <= iw) return extract(a->a, lo, w);
      if (a->k == K::ZEXT) { if (lo >= iw) return con(w, 0); return zext(extract(a->a, lo, iw - lo), w); }
      else if (lo == 0) return sext(a->a, w); }
    if (a->k == K::ITE && a->b->isConst() && a->d->isConst()) return ite(a->a, extract(a->b, lo, w), extract(a->d, lo, w));
    if (lo == 0) { switch (a->k) {
      case K::ADD: return add(extract(a->a, 0, w), extract(a->b, 0, w));
      case K::AND: return and_(extract(a->a, 0, w), extract(a->b, 0, w));
      case K::OR: return or_(extract(a->a, 0, w), extract(a->b, 0, w));
      default: break; } }
    if ((a->k == K::AND || a->k == K::OR || a->k == K::XOR) && a->b->isConst()) {
      E x = extract(a->a, lo, w), y = extract(a->b, lo, w); return a->k == K::AND ? and_(x, y) : a->k == K::OR ? or_(x, y) : xor_(x, y); }
    return mk(K::EXTRACT, w, a, nullptr, nullptr, lo);
  }
  E concat(E hi, E lo) { unsigned w = hi->w + lo->w;
    if (hi->isConst() && lo->isConst()) return con(w, (hi->c << lo->w) | lo->c);
    if (hi->isConst() && hi->c == 0) return zext(lo, w);
    if (hi->k == K::EXTRACT && lo->k == K::EXTRACT && hi->a == lo->a && hi->aux == lo->aux + lo->w) return extract(hi->a, lo->aux, w);
    if (hi->k == K::EXTRACT && hi->a == lo && hi->aux == lo->w) return extract(hi->a, 0, w);
    if (lo->k == K::CONCAT) return concat(concat(hi, lo->a), lo->b);
    return mk(K::CONCAT, w, hi, lo); }
  E ite(E c, E a, E b) { if (c->isConst()) return c->c ? a : b; if (a == b) return a;
    if (a->w == 1) { if (a == T && b == F) return c; if (a == F && b == T) return notb(c); if (a == T) return or_(c, b); if (a == F) return and_(notb(c), b); if (b == F) return and_(c, a); if (b == T) return or_(notb(c), a); }
    if (c->k == K::XOR && c->b == T) return ite(c->a, b, a);
    if (a->k == K::ITE && a->a == c) return ite(c, a->b, b); if (b->k == K::ITE && b->a == c) return ite(c, a, b->d);
    return mk(K::ITE, a->w, c, a, b); }
  E eq(E a, E b) {
    if (a == b) return T;
    if (a->isConst() && b->isConst()) return boolc(a->c == b->c);
    if (a->isConst()) std::swap(a, b);
    if (a->w == 1) { if (b->isConst()) return b->c ? a : notb(a); return notb(xor_(a, b)); }
    if (b->isConst()) {
      if (a->k == K::ADD && a->b->isConst()) return eq(a->a, con(a->w, b->c - a->b->c));
      if (a->k == K::ZEXT) { if (b->c >> a->a->w) return F; return eq(a->a, con(a->a->w, b->c)); }
      if (a->k == K::SEXT) { E t = con(a->a->w, b->c); if (sext(t, a->w) != b) return F; return eq(a->a, t); }
      if (a->k == K::ITE && (a->b->isConst() || a->d->isConst())) return ite(a->a, eq(a->b, b), eq(a->d, b));
      if (a->k == K::CONCAT) return and_(eq(a->a, extract(b, a->b->w, a->a->w)), eq(a->b, extract(b, 0, a->b->w)));
      if (a->k == K::SUB && b->c == 0) return eq(a->a, a->b);
      if (a->k == K::XOR && a->b->isConst()) return eq(a->a, con(a->w, a->b->c ^ b->c));
      if (a->k == K::AND && a->b->isConst() && (b->c & ~a->b->c)) return F;
      if (a->k == K::OR && a->b->isConst() && (a->b->c & ~b->c)) return F;
    } else {
      E ax, bx; u128 ac, bc; splitAdd(a, ax, ac); splitAdd(b, bx, bc);
      if (ax && bx && (ac || bc)) { if (ax == bx) return boolc(ac == bc); if (ac && bc) return eq(ax, add(bx, con(a->w, bc - ac))); }
      if (a->k == K::ZEXT && b->k == K::ZEXT && a->a->w == b->a->w) return eq(a->a, b->a);
      if (a->k == K::SEXT && b->k == K::SEXT && a->a->w == b->a->w) return eq(a->a, b->a);
      if (a->k == K::ITE && b->k == K::ITE && a->a == b->a) return ite(a->a, eq(a->b, b->b), eq(a->d, b->d));
      if (a->id > b->id) std::swap(a, b);
    }
    return mk(K::EQ, 1, a, b);
  }
  E ne(E a, E b) { return notb(eq(a, b)); }
  E ult(E a, E b) { if (a == b) return F; if (a->isConst() && b->isConst()) return boolc(a->c < b->c); if (b->isConst() && b->c == 0) return F; if (a->isConst() && a->c == maskw(a->w)) return F;
    if (b->isConst() && b->c == 1) return eq(a, con(a->w, 0));
    if (a->isConst() && a->c == 0) return ne(b, a);
    if (a->k == K::ZEXT && b->k == K::ZEXT && a->a->w == b->a->w) return ult(a->a, b->a);
    if (a->k == K::ZEXT && b->isConst()) { if (b->c > maskw(a->a->w)) return T; return ult(a->a, con(a->a->w, b->c)); }
    if (b->k == K::ZEXT && a->isConst()) { if (a->c >= maskw(b->a->w)) return F; return ult(con(b->a->w, a->c), b->a); }
    return mk(K::ULT, 1, a, b); }
  E ule(E a, E b) { if (a == b) return T; if (a->isConst() && b->isConst()) return boolc(a->c <= b->c); if (a->isConst() && a->c == 0) return T; if (b->isConst() && b->c == maskw(b->w)) return T;
    if (b->isConst()) return ult(a, con(a->w, b->c + 1)); if (a->isConst()) return ult(con(a->w, a->c - 1), b);
    if (a->k == K::ZEXT && b->k == K::ZEXT && a->a->w == b->a->w) return ule(a->a, b->a);
    return mk(K::ULE, 1, a, b); }
  E slt(E a, E b) { if (a == b) return F; if (a->isConst() && b->isConst()) return boolc(sx(a->c, a->w) < sx(b->c, b->w));
    if (a->k == K::ZEXT && b->k == K::ZEXT) return ult(a, b);
    if (a->k == K::ZEXT && b->isConst()) { if (sx(b->c, b->w) <= 0) return F; return ult(a, b); }
    if (b->k == K::ZEXT && a->isConst()) { if (sx(a->c, a->w) < 0) return T; return ult(a, b); }
    if (b->isConst() && b->c == ((u128)1 << (b->w - 1))) return F; if (a->isConst() && a->c == (maskw(a->w) >> 1)) return F;
    return mk(K::SLT, 1, a, b); }
  E sle(E a, E b) { if (a == b) return T; if (a->isConst() && b->isConst()) return boolc(sx(a->c, a->w) <= sx(b->c, b->w));
    if (b->isConst() && b->c != (maskw(b->w) >> 1)) return slt(a, con(a->w, b->c + 1)); if (a->isConst() && a->c != ((u128)1 << (a->w - 1))) return slt(con(a->w, a->c - 1), b);
    if (b->isConst() || a->isConst()) return T;
    return mk(K::SLE, 1, a, b); }
  E implies(E a, E b) { return or_(notb(a), b); }
  // rebuild with simplification
  E rebuild(K k, unsigned w, E a, E b, E d, uint32_t aux) {
    switch (k) {
    case K::ADD: return add(a, b); case K::SUB: return sub(a, b); case K::MUL: return mul(a, b); case K::UDIV: return udiv(a, b); case K::SDIV: return sdiv(a, b); case K::UREM: return urem(a, b); case K::SREM: return srem(a, b);
    case K::AND: return and_(a, b); case K::OR: return or_(a, b); case K::XOR: return xor_(a, b); case K::SHL: return shl(a, b); case K::LSHR: return lshr(a, b); case K::ASHR: return ashr(a, b);
    case K::CONCAT: return concat(a, b); case K::EXTRACT: return extract(a, aux, w); case K::ZEXT: return zext(a, w); case K::SEXT: return sext(a, w); case K::ITE: return ite(a, b, d);
    case K::EQ: return eq(a, b); case K::ULT: return ult(a, b); case K::ULE: return ule(a, b); case K::SLT: return slt(a, b); case K::SLE: return sle(a, b);
    case K::ASTORE: return astore(a, b, d); case K::ASELECT: return aselect(a, b); default: assert(0); return nullptr; } }
  typedef std::unordered_map<uint32_t, E> Subst; // sym id -> expr
  E subst(E e, const Subst& s, std::unordered_map<E, E>& memo) {
    if (!e->hasSym) return e;
    if (e->k == K::SYM || e->k == K::ASYM) { auto it = s.find(e->aux); return it == s.end() ? e : it->second; }
    auto m = memo.find(e); if (m != memo.end()) return m->second;
    E a = e->a ? subst(e->a, s, memo) : nullptr, b = e->b ? subst(e->b, s, memo) : nullptr, d = e->d ? subst(e->d, s, memo) : nullptr;
    E r = (a == e->a && b == e->b && d == e->d) ? e : rebuild(e->k, e->w, a, b, d, e->aux);
    memo[e] = r; return r;
  }
  void collect(E e, std::unordered_set<E>& seen, std::vector<uint32_t>& out) {
    if (!e->hasSym || !seen.insert(e).second) return;
    if (e->k == K::SYM || e->k == K::ASYM) { out.push_back(e->aux); return; }
    if (e->a) collect(e->a, seen, out); if (e->b) collect(e->b, seen, out); if (e->d) collect(e->d, seen, out);
  }
  // evaluation under a model (sym id -> value); nullptr result = cannot (arrays)
  typedef std::unordered_map<uint32_t, u128> Model;
  bool eval(E e, const Model& m, std::unordered_map<E, u128>& memo, u128& out) {
    if (e->isConst()) { out = e->c; return true; }
    if (e->hasArr) return false;
    if (e->k == K::SYM) { auto it = m.find(e->aux); out = it == m.end() ? 0 : it->second; return true; }
    auto mi = memo.find(e); if (mi != memo.end()) { out = mi->second; return true; }
    u128 a = 0, b = 0, d = 0;
    if (e->k == K::ITE) { if (!eval(e->a, m, memo, a)) return false; if (!eval(a ? e->b : e->d, m, memo, out)) return false; memo[e] = out; return true; }
    if (e->a && !eval(e->a, m, memo, a)) return false; if (e->b && !eval(e->b, m, memo, b)) return false; if (e->d && !eval(e->d, m, memo, d)) return false;
    unsigned w = e->w, aw = e->a->w; u128 r = 0;
    switch (e->k) {
    case K::ADD: r = a + b; break; case K::SUB: r = a - b; break; case K::MUL: r = a * b; break;
    case K::UDIV: r = b ? a / b : maskw(w); break; case K::UREM: r = b ? a % b : a; break;
    case K::SDIV: { i128 x = sx(a, w), y = sx(b, w); r = y == 0 ? (x < 0 ? 1 : maskw(w)) : y == -1 ? (u128)0 - a : (u128)(x / y); break; }
    case K::SREM: { i128 x = sx(a, w), y = sx(b, w); r = y == 0 ? a : y == -1 ? 0 : (u128)(x % y); break; }
    case K::AND: r = a & b; break; case K::OR: r = a | b; break; case K::XOR: r = a ^ b; break;
    case K::SHL: r = b >= w ? 0 : a << (unsigned)b; break; case K::LSHR: r = b >= w ? 0 : a >> (unsigned)b; break; case K::ASHR: r = (u128)(sx(a, w) >> (b >= w ? w - 1 : (unsigned)b)); break;
    case K::CONCAT: r = (a << e->b->w) | b; break; case K::EXTRACT: r = a >> e->aux; break; case K::ZEXT: r = a; break; case K::SEXT: r = (u128)sx(a, aw); break;
    case K::EQ: r = a == b; break; case K::ULT: r = a < b; break; case K::ULE: r = a <= b; break; case K::SLT: r = sx(a, aw) < sx(b, aw); break; case K::SLE: r = sx(a, aw) <= sx(b, aw); break;
    default: return false; }
    out = r & maskw(w); memo[e] = out; return true;
  }
};
extern Ctx X;
