// Hash-consed bit-vector expressions (width 1..64) with cheap simplification,
// unsigned ranges, variable sets, concrete evaluation and Z3 translation.
#pragma once
#include <cstdint>
#include <cstring>
#include <cmath>
#include <string>
#include <vector>
#include <unordered_map>
#include <unordered_set>
#include <algorithm>
#include <z3.h>

enum EK : uint8_t {
  E_CONST, E_VAR, E_ADD, E_SUB, E_MUL, E_UDIV, E_SDIV, E_UREM, E_SREM,
  E_AND, E_OR, E_XOR, E_SHL, E_LSHR, E_ASHR, E_NOT /*width 1*/,
  E_EQ, E_ULT, E_ULE, E_SLT, E_SLE, E_ITE, E_CONCAT, E_EXTRACT, E_ZEXT, E_SEXT,
  E_FADD, E_FSUB, E_FMUL, E_FDIV, E_FEQ, E_FLT, E_FLE, E_FUNO, E_FNEG, E_FABS, E_FSQRT,
  E_FROUND /*aux: 0 ceil 1 floor 2 trunc*/, E_SITOFP, E_UITOFP, E_FPTOSI, E_FPTOUI, E_FPCAST
};

static inline uint64_t maskw(unsigned w) { return w >= 64 ? ~0ULL : ((1ULL << w) - 1); }
static inline int64_t sx(uint64_t v, unsigned w) {
  if (w >= 64) return (int64_t)v;
  uint64_t s = 1ULL << (w - 1);
  return (int64_t)((v ^ s) - s);
}

struct VarSet { uint32_t id; std::vector<uint32_t> v; };

struct Expr {
  EK k; uint8_t w; uint8_t aux; bool hasfp;
  uint32_t id;
  Expr *a, *b, *c;
  uint64_t val;          // const value / var id
  uint64_t lo, hi;       // unsigned range
  int64_t sl, sh;        // signed range
  VarSet *vs;
  Z3_ast zv, zb;
  uint32_t stamp; uint64_t ev;
};

typedef std::vector<uint64_t> Model;   // var id -> value

struct VarInfo { std::string name; uint8_t w; Expr *e; };

struct ExprMgr {
  std::vector<Expr *> all;
  struct Key { EK k; uint8_t w, aux; Expr *a, *b, *c; uint64_t val;
    bool operator==(const Key &o) const { return k == o.k && w == o.w && aux == o.aux && a == o.a && b == o.b && c == o.c && val == o.val; } };
  struct KH { size_t operator()(const Key &x) const {
    uint64_t h = x.k * 1000003ULL + x.w * 31 + x.aux;
    auto mix = [&](uint64_t v) { h ^= v + 0x9e3779b97f4a7c15ULL + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdULL; h ^= h >> 32; };
    mix((uint64_t)x.a); mix((uint64_t)x.b); mix((uint64_t)x.c); mix(x.val); return h; } };
  std::unordered_map<Key, Expr *, KH> tab;
  std::vector<VarInfo> vars;
  std::unordered_map<std::string, uint32_t> varByName;
  std::vector<VarSet *> vsets;
  std::unordered_map<std::string, VarSet *> vsTab;
  std::unordered_map<uint64_t, VarSet *> vsUnion;
  VarSet *emptyVS;
  uint32_t stampc = 0;
  Z3_context ctx = nullptr;

  ExprMgr() { emptyVS = mkVS({}); }
  VarSet *mkVS(const std::vector<uint32_t> &v) {
    std::string key((const char *)v.data(), v.size() * 4);
    auto it = vsTab.find(key);
    if (it != vsTab.end()) return it->second;
    VarSet *s = new VarSet{(uint32_t)vsets.size(), v};
    vsets.push_back(s); vsTab[key] = s; return s;
  }
  VarSet *unite(VarSet *a, VarSet *b) {
    if (a == b || b->v.empty()) return a;
    if (a->v.empty()) return b;
    uint64_t k = a->id < b->id ? ((uint64_t)a->id << 32 | b->id) : ((uint64_t)b->id << 32 | a->id);
    auto it = vsUnion.find(k);
    if (it != vsUnion.end()) return it->second;
    std::vector<uint32_t> r;
    std::set_union(a->v.begin(), a->v.end(), b->v.begin(), b->v.end(), std::back_inserter(r));
    VarSet *s = mkVS(r); vsUnion[k] = s; return s;
  }

  Expr *raw(EK k, unsigned w, Expr *a = 0, Expr *b = 0, Expr *c = 0, uint64_t val = 0, unsigned aux = 0) {
    Key key{k, (uint8_t)w, (uint8_t)aux, a, b, c, val};
    auto it = tab.find(key);
    if (it != tab.end()) return it->second;
    Expr *e = new Expr();
    e->k = k; e->w = w; e->aux = aux; e->a = a; e->b = b; e->c = c; e->val = val;
    e->id = all.size(); e->zv = e->zb = nullptr; e->stamp = 0;
    e->vs = k == E_VAR ? mkVS({(uint32_t)val}) : emptyVS;
    e->hasfp = k >= E_FADD;
    for (Expr *x : {a, b, c}) if (x) { e->vs = unite(e->vs, x->vs); e->hasfp |= x->hasfp; }
    range(e);
    all.push_back(e); tab[key] = e; return e;
  }
  void range(Expr *e) {
    uint64_t m = maskw(e->w);
    e->lo = 0; e->hi = m;
    Expr *a = e->a, *b = e->b;
    switch (e->k) {
    case E_CONST: e->lo = e->hi = e->val; break;
    case E_ADD: if (a->hi + b->hi >= a->hi && a->hi + b->hi <= m) { e->lo = a->lo + b->lo; e->hi = a->hi + b->hi; } break;
    case E_MUL: { unsigned __int128 p = (unsigned __int128)a->hi * b->hi; if (p <= m) { e->lo = a->lo * b->lo; e->hi = (uint64_t)p; } break; }
    case E_AND: e->hi = std::min(a->hi, b->hi); break;
    case E_UREM: if (b->k == E_CONST && b->val) e->hi = std::min(a->hi, b->val - 1); break;
    case E_UDIV: if (b->k == E_CONST && b->val) { e->lo = a->lo / b->val; e->hi = a->hi / b->val; } break;
    case E_SHL: if (b->k == E_CONST && b->val < e->w && a->hi <= (m >> b->val)) { e->lo = a->lo << b->val; e->hi = a->hi << b->val; } break;
    case E_LSHR: if (b->k == E_CONST && b->val < e->w) { e->lo = a->lo >> b->val; e->hi = a->hi >> b->val; } break;
    case E_ITE: e->lo = std::min(b->lo, e->c->lo); e->hi = std::max(b->hi, e->c->hi); break;
    case E_ZEXT: e->lo = a->lo; e->hi = a->hi; break;
    case E_SEXT: if (a->hi <= (maskw(a->w) >> 1)) { e->lo = a->lo; e->hi = a->hi; } break;
    case E_EXTRACT: if (e->aux == 0 && a->hi <= m) { e->lo = a->lo; e->hi = a->hi; } break;
    case E_CONCAT: e->lo = (a->lo << b->w) | b->lo; e->hi = (a->hi << b->w) | b->hi; break;
    default: break;
    }
    // signed range
    unsigned w = e->w; int64_t mn = sx(1ULL << (w - 1), w), mx = (int64_t)(m >> 1);
    e->sl = mn; e->sh = mx;
    auto setr = [&](__int128 l, __int128 h) { if (l >= mn && h <= mx) { e->sl = (int64_t)l; e->sh = (int64_t)h; } };
    switch (e->k) {
    case E_CONST: e->sl = e->sh = sx(e->val, w); break;
    case E_ADD: setr((__int128)a->sl + b->sl, (__int128)a->sh + b->sh); break;
    case E_SUB: setr((__int128)a->sl - b->sh, (__int128)a->sh - b->sl); break;
    case E_MUL: { __int128 p[4] = {(__int128)a->sl * b->sl, (__int128)a->sl * b->sh, (__int128)a->sh * b->sl, (__int128)a->sh * b->sh}; __int128 l = p[0], h = p[0]; for (auto x : p) { if (x < l) l = x; if (x > h) h = x; } setr(l, h); break; }
    case E_ITE: if (w > 1) { e->sl = std::min(b->sl, e->c->sl); e->sh = std::max(b->sh, e->c->sh); } break;
    case E_SEXT: e->sl = a->sl; e->sh = a->sh; break;
    case E_EXTRACT: if (e->aux == 0) setr(a->sl, a->sh); break;
    case E_ASHR: if (b->k == E_CONST && b->val < w) { e->sl = a->sl >> b->val; e->sh = a->sh >> b->val; } break;
    default: break;
    }
    if (e->hi <= (uint64_t)mx && w > 1) { if ((int64_t)e->lo > e->sl) e->sl = (int64_t)e->lo; if ((int64_t)e->hi < e->sh) e->sh = (int64_t)e->hi; }
    if (e->sl >= 0 && w > 1) { if ((uint64_t)e->sl > e->lo) e->lo = (uint64_t)e->sl; if ((uint64_t)e->sh < e->hi) e->hi = (uint64_t)e->sh; }
  }
  Expr *cst(uint64_t v, unsigned w) { return raw(E_CONST, w, 0, 0, 0, v & maskw(w)); }
  Expr *var(const std::string &name, unsigned w) {
    std::string key = name + "/" + std::to_string(w);
    auto it = varByName.find(key);
    if (it != varByName.end()) return vars[it->second].e;
    uint32_t id = vars.size();
    Expr *e = raw(E_VAR, w, 0, 0, 0, id);
    vars.push_back({name, (uint8_t)w, e}); varByName[key] = id; return e;
  }
  static bool isC(Expr *e) { return e->k == E_CONST; }
  static bool isC(Expr *e, uint64_t v) { return e->k == E_CONST && e->val == v; }

  Expr *bnot(Expr *a) {
    if (isC(a)) return cst(!a->val, 1);
    if (a->k == E_NOT) return a->a;
    if (a->k == E_ULT) return ule(a->b, a->a);
    if (a->k == E_ULE) return ult(a->b, a->a);
    if (a->k == E_SLT) return sle(a->b, a->a);
    if (a->k == E_SLE) return slt(a->b, a->a);
    return raw(E_NOT, 1, a);
  }
  Expr *bin(EK k, Expr *a, Expr *b) {
    unsigned w = a->w;
    if (isC(a) && isC(b)) return cst(evalBin(k, a->val, b->val, w), (k >= E_EQ && k <= E_SLE) ? 1 : w);
    switch (k) {
    case E_ADD:
      if (isC(a)) std::swap(a, b);
      if (isC(b, 0)) return a;
      if (isC(b) && a->k == E_ADD && isC(a->b)) return bin(E_ADD, a->a, cst(a->b->val + b->val, w));
      if (isC(b) && a->k == E_ITE && (isC(a->b) || isC(a->c))) return ite(a->a, bin(E_ADD, a->b, b), bin(E_ADD, a->c, b));
      if (w == 1) return bin(E_XOR, a, b);
      if (!isC(b) && b->k == E_ADD && isC(b->b)) return bin(E_ADD, bin(E_ADD, a, b->a), b->b);
      if (!isC(b) && a->k == E_ADD && isC(a->b)) return bin(E_ADD, bin(E_ADD, a->a, b), a->b);
      if (!isC(b) && a->id > b->id) std::swap(a, b);
      break;
    case E_SUB:
      if (a == b) return cst(0, w);
      if (isC(b)) return bin(E_ADD, a, cst(-b->val, w));
      if (a->k == E_ADD && a->a == b) return a->b;
      if (a->k == E_ADD && a->b == b) return a->a;
      if (a->k == E_ADD && b->k == E_ADD && isC(a->b) && isC(b->b)) return bin(E_ADD, bin(E_SUB, a->a, b->a), cst(a->b->val - b->b->val, w));
      break;
    case E_MUL:
      if (isC(a)) std::swap(a, b);
      if (isC(b, 0)) return b;
      if (isC(b, 1)) return a;
      if (isC(b) && a->k == E_MUL && isC(a->b)) return bin(E_MUL, a->a, cst(a->b->val * b->val, w));
      if (isC(b) && a->k == E_ADD && isC(a->b)) return bin(E_ADD, bin(E_MUL, a->a, b), cst(a->b->val * b->val, w));
      if (isC(b) && a->k == E_ITE && isC(a->b) && isC(a->c)) return ite(a->a, bin(E_MUL, a->b, b), bin(E_MUL, a->c, b));
      break;
    case E_AND:
      if (isC(a)) std::swap(a, b);
      if (a == b) return a;
      if (isC(b, 0)) return b;
      if (isC(b, maskw(w))) return a;
      if (isC(b) && ((b->val & (b->val + 1)) == 0) && a->hi <= b->val) return a;
      if (isC(b) && a->k == E_AND && isC(a->b)) return bin(E_AND, a->a, cst(a->b->val & b->val, w));
      if (isC(b) && a->k == E_ITE && isC(a->b) && isC(a->c)) return ite(a->a, bin(E_AND, a->b, b), bin(E_AND, a->c, b));
      if (isC(b) && (b->val & (b->val + 1)) == 0 && a->k == E_ZEXT) { // low mask of zext
        unsigned n = 64 - __builtin_clzll(b->val);
        if (n >= a->a->w) return a;
        return zext(extract(a->a, 0, n), w);
      }
      if (w == 1) { if (a->k == E_NOT && a->a == b) return cst(0, 1); if (b->k == E_NOT && b->a == a) return cst(0, 1); }
      if (!isC(b) && a->id > b->id) std::swap(a, b);
      break;
    case E_OR:
      if (isC(a)) std::swap(a, b);
      if (a == b) return a;
      if (isC(b, 0)) return a;
      if (isC(b, maskw(w))) return b;
      if (w == 1) { if (a->k == E_NOT && a->a == b) return cst(1, 1); if (b->k == E_NOT && b->a == a) return cst(1, 1); }
      if (!isC(b) && a->id > b->id) std::swap(a, b);
      break;
    case E_XOR:
      if (isC(a)) std::swap(a, b);
      if (a == b) return cst(0, w);
      if (isC(b, 0)) return a;
      if (w == 1 && isC(b, 1)) return bnot(a);
      if (isC(b) && a->k == E_XOR && isC(a->b)) return bin(E_XOR, a->a, cst(a->b->val ^ b->val, w));
      if (!isC(b) && a->id > b->id) std::swap(a, b);
      break;
    case E_SHL: case E_LSHR: case E_ASHR:
      if (isC(b, 0)) return a;
      if (isC(b) && b->val < w) {
        unsigned s = b->val;
        if (k == E_LSHR) {
          if (a->hi <= maskw(s)) return cst(0, w);
          return zext(extract(a, s, w - s), w);
        }
        if (k == E_ASHR && a->hi <= (maskw(w) >> 1)) return bin(E_LSHR, a, b);
        if (k == E_SHL) return bin(E_MUL, a, cst(1ULL << s, w));
        if (k == E_ASHR) return sext(extract(a, s, w - s), w);
      }
      break;
    case E_UDIV: case E_SDIV:
      if (isC(b, 1)) return a;
      if (k == E_SDIV && isC(b) && sx(b->val, w) > 0 && a->hi <= (maskw(w) >> 1)) return bin(E_UDIV, a, b);
      if (k == E_UDIV && isC(b) && b->val && (b->val & (b->val - 1)) == 0) return bin(E_LSHR, a, cst(__builtin_ctzll(b->val), w));
      break;
    case E_UREM: case E_SREM:
      if (k == E_SREM && isC(b) && sx(b->val, w) > 0 && a->hi <= (maskw(w) >> 1)) return bin(E_UREM, a, b);
      if (k == E_UREM && isC(b) && b->val && (b->val & (b->val - 1)) == 0) return bin(E_AND, a, cst(b->val - 1, w));
      if (k == E_UREM && isC(b) && a->hi < b->val) return a;
      break;
    case E_EQ: return eq(a, b);
    case E_ULT: return ult(a, b);
    case E_ULE: return ule(a, b);
    case E_SLT: return slt(a, b);
    case E_SLE: return sle(a, b);
    default: break;
    }
    return raw(k, w, a, b);
  }
  Expr *eq(Expr *a, Expr *b) {
    if (a == b) return cst(1, 1);
    if (isC(a)) std::swap(a, b);
    if (isC(a) && isC(b)) return cst(a->val == b->val, 1);
    if (a->hi < b->lo || b->hi < a->lo) return cst(0, 1);
    unsigned w = a->w;
    if (isC(b)) {
      uint64_t k = b->val;
      if (w == 1) return k ? a : bnot(a);
      switch (a->k) {
      case E_ADD: if (isC(a->b)) return eq(a->a, cst(k - a->b->val, w)); break;
      case E_XOR: if (isC(a->b)) return eq(a->a, cst(k ^ a->b->val, w)); break;
      case E_SUB: if (k == 0) return eq(a->a, a->b); if (isC(a->a)) return eq(a->b, cst(a->a->val - k, w)); break;
      case E_ZEXT: if (k > maskw(a->a->w)) return cst(0, 1); return eq(a->a, cst(k, a->a->w));
      case E_SEXT: { uint64_t t = k & maskw(a->a->w); if (((uint64_t)sx(t, a->a->w) & maskw(w)) != k) return cst(0, 1); return eq(a->a, cst(t, a->a->w)); }
      case E_CONCAT: return band(eq(a->a, cst(k >> a->b->w, a->a->w)), eq(a->b, cst(k, a->b->w)));
      case E_ITE: if (isC(a->b) || isC(a->c)) {
        Expr *x = eq(a->b, b), *y = eq(a->c, b);
        return ite(a->a, x, y);
      } break;
      case E_MUL: if (isC(a->b) && a->b->val) {
        unsigned __int128 p = (unsigned __int128)a->a->hi * a->b->val;
        if (p <= maskw(w)) { if (k % a->b->val) return cst(0, 1); return eq(a->a, cst(k / a->b->val, w)); }
      } break;
      default: break;
      }
    } else {
      if (a->k == E_ADD && b->k == E_ADD && isC(a->b) && isC(b->b)) {
        if (a->b == b->b) return eq(a->a, b->a);
      }
      if (a->k == E_ZEXT && b->k == E_ZEXT) {
        if (a->a->w == b->a->w) return eq(a->a, b->a);
        if (a->a->w < b->a->w) return eq(zext(a->a, b->a->w), b->a);
        return eq(a->a, zext(b->a, a->a->w));
      }
      if (a->k == E_SEXT && b->k == E_SEXT && a->a->w == b->a->w) return eq(a->a, b->a);
      if (w == 1) return bnot(raw(E_XOR, 1, a->id < b->id ? a : b, a->id < b->id ? b : a));
      if (a->id > b->id) std::swap(a, b);
    }
    return raw(E_EQ, 1, a, b);
  }
  Expr *band(Expr *a, Expr *b) { return bin(E_AND, a, b); }
  Expr *bor(Expr *a, Expr *b) { return bin(E_OR, a, b); }
  Expr *ult(Expr *a, Expr *b) {
    if (a == b) return cst(0, 1);
    if (a->hi < b->lo) return cst(1, 1);
    if (a->lo >= b->hi) return cst(0, 1);
    if (isC(b, 1)) return eq(a, cst(0, a->w));
    if (a->k == E_ZEXT && isC(b) && b->val <= maskw(a->a->w)) return ult(a->a, cst(b->val, a->a->w));
    if (b->k == E_ZEXT && isC(a) && a->val <= maskw(b->a->w)) return ult(cst(a->val, b->a->w), b->a);
    if (a->k == E_ZEXT && b->k == E_ZEXT && a->a->w == b->a->w) return ult(a->a, b->a);
    if (isC(b) && a->k == E_ITE && (isC(a->b) || isC(a->c))) return ite(a->a, ult(a->b, b), ult(a->c, b));
    if (isC(a) && b->k == E_ITE && (isC(b->b) || isC(b->c))) return ite(b->a, ult(a, b->b), ult(a, b->c));
    if (isC(b) && a->k == E_ADD && isC(a->b) && a->a->hi + a->b->val >= a->b->val && a->a->hi + a->b->val <= maskw(a->w) && b->val >= a->b->val)
      return ult(a->a, cst(b->val - a->b->val, a->w));
    if (isC(a) && b->k == E_ADD && isC(b->b) && b->a->hi + b->b->val >= b->b->val && b->a->hi + b->b->val <= maskw(a->w) && a->val >= b->b->val)
      return ult(cst(a->val - b->b->val, a->w), b->a);
    return raw(E_ULT, 1, a, b);
  }
  Expr *ule(Expr *a, Expr *b) {
    if (a == b) return cst(1, 1);
    if (a->hi <= b->lo) return cst(1, 1);
    if (a->lo > b->hi) return cst(0, 1);
    if (isC(b) && b->val < maskw(b->w)) return ult(a, cst(b->val + 1, b->w));
    if (isC(a) && a->val > 0) return ult(cst(a->val - 1, a->w), b);
    if (a->k == E_ZEXT && b->k == E_ZEXT && a->a->w == b->a->w) return ule(a->a, b->a);
    return raw(E_ULE, 1, a, b);
  }
  void srange(Expr *e, int64_t &lo, int64_t &hi) { lo = e->sl; hi = e->sh; }
  Expr *slt(Expr *a, Expr *b) {
    if (a == b) return cst(0, 1);
    unsigned w = a->w;
    if (isC(a) && isC(b)) return cst(sx(a->val, w) < sx(b->val, w), 1);
    int64_t al, ah, bl, bh; srange(a, al, ah); srange(b, bl, bh);
    if (ah < bl) return cst(1, 1);
    if (al >= bh) return cst(0, 1);
    if (al >= 0 && bl >= 0) return ult(a, b);
    // shift both by constant: (x + k) < c  with no signed overflow
    if (isC(b) && a->k == E_ADD && isC(a->b)) {
      int64_t xl, xh; srange(a->a, xl, xh); int64_t k = sx(a->b->val, w);
      __int128 l = (__int128)xl + k, h = (__int128)xh + k, c = (__int128)sx(b->val, w) - k;
      int64_t mn = sx(1ULL << (w - 1), w), mx = (int64_t)(maskw(w) >> 1);
      if (l >= mn && h <= mx && c >= mn && c <= mx) return slt(a->a, cst((uint64_t)(int64_t)c, w));
    }
    if (isC(a) && b->k == E_ADD && isC(b->b)) {
      int64_t xl, xh; srange(b->a, xl, xh); int64_t k = sx(b->b->val, w);
      __int128 l = (__int128)xl + k, h = (__int128)xh + k, c = (__int128)sx(a->val, w) - k;
      int64_t mn = sx(1ULL << (w - 1), w), mx = (int64_t)(maskw(w) >> 1);
      if (l >= mn && h <= mx && c >= mn && c <= mx) return slt(cst((uint64_t)(int64_t)c, w), b->a);
    }
    if (a->k == E_SEXT && b->k == E_SEXT && a->a->w == b->a->w) return slt(a->a, b->a);
    if (isC(b) && a->k == E_SEXT && sx(b->val & maskw(a->a->w), a->a->w) == sx(b->val, w)) return slt(a->a, cst(b->val, a->a->w));
    if (isC(a) && b->k == E_SEXT && sx(a->val & maskw(b->a->w), b->a->w) == sx(a->val, w)) return slt(cst(a->val, b->a->w), b->a);
    if (isC(b) && a->k == E_ITE && (isC(a->b) || isC(a->c))) return ite(a->a, slt(a->b, b), slt(a->c, b));
    if (isC(a) && b->k == E_ITE && (isC(b->b) || isC(b->c))) return ite(b->a, slt(a, b->b), slt(a, b->c));
    return raw(E_SLT, 1, a, b);
  }
  Expr *sle(Expr *a, Expr *b) {
    if (a == b) return cst(1, 1);
    unsigned w = a->w;
    int64_t mn = sx(1ULL << (w - 1), w), mx = (int64_t)(maskw(w) >> 1);
    if (isC(a) && isC(b)) return cst(sx(a->val, w) <= sx(b->val, w), 1);
    if (isC(b) && sx(b->val, w) < mx) return slt(a, cst(b->val + 1, w));
    if (isC(a) && sx(a->val, w) > mn) return slt(cst(a->val - 1, w), b);
    int64_t al, ah, bl, bh; srange(a, al, ah); srange(b, bl, bh);
    if (ah <= bl) return cst(1, 1);
    if (al > bh) return cst(0, 1);
    if (al >= 0 && bl >= 0) return ule(a, b);
    return raw(E_SLE, 1, a, b);
  }
  Expr *ite(Expr *c, Expr *a, Expr *b) {
    if (isC(c)) return c->val ? a : b;
    if (a == b) return a;
    if (c->k == E_NOT) return ite(c->a, b, a);
    if (a->w == 1) {
      if (isC(a, 1) && isC(b, 0)) return c;
      if (isC(a, 0) && isC(b, 1)) return bnot(c);
      if (isC(a, 1)) return bor(c, b);
      if (isC(a, 0)) return band(bnot(c), b);
      if (isC(b, 0)) return band(c, a);
      if (isC(b, 1)) return bor(bnot(c), a);
    }
    if (b->k == E_ITE && b->a == c) return ite(c, a, b->c);
    if (a->k == E_ITE && a->a == c) return ite(c, a->b, b);
    if (b->k == E_ITE && b->b == a) return ite(bor(c, b->a), a, b->c);
    return raw(E_ITE, a->w, c, a, b);
  }
  Expr *extract(Expr *a, unsigned off, unsigned w) {
    if (off == 0 && w == a->w) return a;
    switch (a->k) {
    case E_CONST: return cst(a->val >> off, w);
    case E_EXTRACT: return extract(a->a, a->aux + off, w);
    case E_ZEXT:
      if (off >= a->a->w) return cst(0, w);
      if (off + w <= a->a->w) return extract(a->a, off, w);
      return zext(extract(a->a, off, a->a->w - off), w);
    case E_SEXT:
      if (off + w <= a->a->w) return extract(a->a, off, w);
      if (off == 0) return sext(a->a, w);
      break;
    case E_CONCAT:
      if (off + w <= a->b->w) return extract(a->b, off, w);
      if (off >= a->b->w) return extract(a->a, off - a->b->w, w);
      break;
    case E_ITE:
      if (isC(a->b) || isC(a->c)) return ite(a->a, extract(a->b, off, w), extract(a->c, off, w));
      break;
    case E_ADD: case E_MUL: case E_SUB:
      if (off == 0) return bin(a->k, extract(a->a, 0, w), extract(a->b, 0, w));
      if (a->hi <= maskw(off)) return cst(0, w);
      break;
    case E_AND: case E_OR: case E_XOR:
      return bin(a->k, extract(a->a, off, w), extract(a->b, off, w));
    default: break;
    }
    if (a->hi <= maskw(off) && off) return cst(0, w);
    return raw(E_EXTRACT, w, a, 0, 0, 0, off);
  }
  Expr *zext(Expr *a, unsigned w) {
    if (w == a->w) return a;
    if (isC(a)) return cst(a->val, w);
    if (a->k == E_ZEXT) return zext(a->a, w);
    if (a->k == E_EXTRACT && a->aux == 0 && a->a->w == w && a->a->hi <= maskw(a->w)) return a->a;
    if (a->k == E_ITE && isC(a->b) && isC(a->c)) return ite(a->a, cst(a->b->val, w), cst(a->c->val, w));
    if (a->k == E_ADD && isC(a->b) && a->a->hi + a->b->val >= a->b->val && a->a->hi + a->b->val <= maskw(a->w))
      return bin(E_ADD, zext(a->a, w), cst(a->b->val, w));
    return raw(E_ZEXT, w, a);
  }
  Expr *sext(Expr *a, unsigned w) {
    if (w == a->w) return a;
    if (isC(a)) return cst((uint64_t)sx(a->val, a->w), w);
    if (a->hi <= (maskw(a->w) >> 1)) return zext(a, w);
    if (a->k == E_SEXT) return sext(a->a, w);
    if (a->k == E_ITE && isC(a->b) && isC(a->c)) return ite(a->a, sext(a->b, w), sext(a->c, w));
    if (a->k == E_ADD && isC(a->b)) { // push through when no signed overflow
      int64_t xl, xh; srange(a->a, xl, xh); int64_t k = sx(a->b->val, a->w);
      __int128 l = (__int128)xl + k, h = (__int128)xh + k;
      int64_t mn = sx(1ULL << (a->w - 1), a->w), mx = (int64_t)(maskw(a->w) >> 1);
      if (l >= mn && h <= mx) return bin(E_ADD, sext(a->a, w), cst((uint64_t)k, w));
    }
    return raw(E_SEXT, w, a);
  }
  Expr *concat(Expr *hi, Expr *lo) {
    unsigned w = hi->w + lo->w;
    if (isC(hi) && isC(lo)) return cst(hi->val << lo->w | lo->val, w);
    if (isC(hi, 0)) return zext(lo, w);
    if (hi->k == E_EXTRACT && lo->k == E_EXTRACT && hi->a == lo->a && hi->aux == lo->aux + lo->w) return extract(lo->a, lo->aux, w);
    if (hi->k == E_EXTRACT && hi->a == lo && hi->aux == lo->w) return extract(lo, 0, w);
    // zext pieces: hi is constant zero handled above; ite-of-consts pieces
    if (hi->k == E_ITE && lo->k == E_ITE && hi->a == lo->a) return ite(hi->a, concat(hi->b, lo->b), concat(hi->c, lo->c));
    return raw(E_CONCAT, w, hi, lo);
  }
  Expr *fp(EK k, unsigned w, Expr *a, Expr *b = 0, unsigned aux = 0) {
    if (isC(a) && (!b || isC(b))) return cst(evalFp(k, w, a->w, a->val, b ? b->val : 0, aux), w);
    return raw(k, w, a, b, 0, 0, aux);
  }

  static double d(uint64_t v) { double x; memcpy(&x, &v, 8); return x; }
  static float f(uint64_t v) { float x; uint32_t u = v; memcpy(&x, &u, 4); return x; }
  static uint64_t ud(double x) { uint64_t v; memcpy(&v, &x, 8); return v; }
  static uint64_t uf(float x) { uint32_t v; memcpy(&v, &x, 4); return v; }
  static uint64_t evalFp(EK k, unsigned w, unsigned wa, uint64_t a, uint64_t b, unsigned aux) {
#define FP2(op) return wa == 64 ? ud(d(a) op d(b)) : uf(f(a) op f(b))
#define FC(op) return wa == 64 ? (d(a) op d(b)) : (f(a) op f(b))
    switch (k) {
    case E_FADD: FP2(+); case E_FSUB: FP2(-); case E_FMUL: FP2(*); case E_FDIV: FP2(/);
    case E_FEQ: FC(==); case E_FLT: FC(<); case E_FLE: FC(<=);
    case E_FUNO: return wa == 64 ? (std::isnan(d(a)) || std::isnan(d(b))) : (std::isnan(f(a)) || std::isnan(f(b)));
    case E_FNEG: return a ^ (1ULL << (wa - 1));
    case E_FABS: return a & ~(1ULL << (wa - 1));
    case E_FSQRT: return wa == 64 ? ud(sqrt(d(a))) : uf(sqrtf(f(a)));
    case E_FROUND: { double x = wa == 64 ? d(a) : f(a); x = aux == 0 ? ceil(x) : aux == 1 ? floor(x) : trunc(x); return wa == 64 ? ud(x) : uf((float)x); }
    case E_SITOFP: { int64_t v = sx(a, wa); return w == 64 ? ud((double)v) : uf((float)v); }
    case E_UITOFP: return w == 64 ? ud((double)a) : uf((float)a);
    case E_FPTOSI: { double x = wa == 64 ? d(a) : f(a); return (uint64_t)(int64_t)x & maskw(w); }
    case E_FPTOUI: { double x = wa == 64 ? d(a) : f(a); return (uint64_t)x & maskw(w); }
    case E_FPCAST: return wa == w ? a : (w == 64 ? ud((double)f(a)) : uf((float)d(a)));
    default: return 0;
    }
  }
  static uint64_t evalBin(EK k, uint64_t a, uint64_t b, unsigned w) {
    uint64_t m = maskw(w);
    switch (k) {
    case E_ADD: return (a + b) & m; case E_SUB: return (a - b) & m; case E_MUL: return (a * b) & m;
    case E_UDIV: return b ? (a / b) & m : m;
    case E_UREM: return b ? (a % b) & m : a;
    case E_SDIV: { int64_t x = sx(a, w), y = sx(b, w); if (!y) return x >= 0 ? m : 1; if (y == -1) return (0 - (uint64_t)x) & m; return (uint64_t)(x / y) & m; }
    case E_SREM: { int64_t x = sx(a, w), y = sx(b, w); if (!y) return a; if (y == -1) return 0; return (uint64_t)(x % y) & m; }
    case E_AND: return a & b; case E_OR: return a | b; case E_XOR: return a ^ b;
    case E_SHL: return b >= w ? 0 : (a << b) & m;
    case E_LSHR: return b >= w ? 0 : a >> b;
    case E_ASHR: return (uint64_t)(sx(a, w) >> (b >= w ? w - 1 : b)) & m;
    case E_EQ: return a == b; case E_ULT: return a < b; case E_ULE: return a <= b;
    case E_SLT: return sx(a, w) < sx(b, w); case E_SLE: return sx(a, w) <= sx(b, w);
    default: return 0;
    }
  }
  uint64_t eval(Expr *e, const Model &m) { stampc++; return ev(e, m); }
  uint64_t ev(Expr *e, const Model &m) {
    if (e->k == E_CONST) return e->val;
    if (e->k == E_VAR) return e->val < m.size() ? m[e->val] : 0;
    if (e->stamp == stampc) return e->ev;
    uint64_t r;
    switch (e->k) {
    case E_NOT: r = !ev(e->a, m); break;
    case E_ITE: r = ev(e->a, m) ? ev(e->b, m) : ev(e->c, m); break;
    case E_CONCAT: r = ev(e->a, m) << e->b->w | ev(e->b, m); break;
    case E_EXTRACT: r = (ev(e->a, m) >> e->aux) & maskw(e->w); break;
    case E_ZEXT: r = ev(e->a, m); break;
    case E_SEXT: r = (uint64_t)sx(ev(e->a, m), e->a->w) & maskw(e->w); break;
    default:
      if (e->k >= E_FADD) r = evalFp(e->k, e->w, e->a->w, ev(e->a, m), e->b ? ev(e->b, m) : 0, e->aux);
      else r = evalBin(e->k, ev(e->a, m), ev(e->b, m), e->a->w);
    }
    e->stamp = stampc; e->ev = r; return r;
  }

  // ---- Z3 ----
  Z3_ast keep(Z3_ast a) { Z3_inc_ref(ctx, a); return a; }
  Z3_sort fps(unsigned w) { return w == 64 ? Z3_mk_fpa_sort_64(ctx) : Z3_mk_fpa_sort_32(ctx); }
  Z3_ast tofp(Expr *e) { return keep(Z3_mk_fpa_to_fp_bv(ctx, zbv(e), fps(e->w))); }
  // smallest width whose signed range holds e (>=1)
  static unsigned swidth(int64_t l, int64_t h) { unsigned k = 1; while (k < 64 && (l < -((int64_t)1 << (k - 1)) || h > ((int64_t)1 << (k - 1)) - 1)) k++; return k; }
  std::unordered_map<uint64_t, Z3_ast> zlowTab;
  // low k bits of e, built with k-bit arithmetic where that is exact
  Z3_ast zlow(Expr *e, unsigned k) {
    if (e->hasfp || e->w == 1) return k == e->w ? zbv(e) : keep(Z3_mk_extract(ctx, k - 1, 0, zbv(e)));
    if (k > e->w) abort();
    if (e->k == E_CONST) { uint64_t ck = 1ULL << 63 | (uint64_t)e->id << 8 | k; auto it = zlowTab.find(ck); if (it != zlowTab.end()) return it->second; return zlowTab[ck] = keep(Z3_mk_unsigned_int64(ctx, e->val & maskw(k), Z3_mk_bv_sort(ctx, k))); }
    uint64_t key = (uint64_t)e->id << 8 | k; auto it = zlowTab.find(key); if (it != zlowTab.end()) return it->second;
    unsigned n = swidth(e->sl, e->sh); Z3_ast r = nullptr;
    if (n < k) r = Z3_mk_sign_ext(ctx, k - n, zlow(e, n));
    else switch (e->k) {
      case E_ADD: r = Z3_mk_bvadd(ctx, zlow(e->a, k), zlow(e->b, k)); break;
      case E_SUB: r = Z3_mk_bvsub(ctx, zlow(e->a, k), zlow(e->b, k)); break;
      case E_MUL: r = Z3_mk_bvmul(ctx, zlow(e->a, k), zlow(e->b, k)); break;
      case E_AND: r = Z3_mk_bvand(ctx, zlow(e->a, k), zlow(e->b, k)); break;
      case E_OR: r = Z3_mk_bvor(ctx, zlow(e->a, k), zlow(e->b, k)); break;
      case E_XOR: r = Z3_mk_bvxor(ctx, zlow(e->a, k), zlow(e->b, k)); break;
      case E_ITE: r = Z3_mk_ite(ctx, zbool(e->a), zlow(e->b, k), zlow(e->c, k)); break;
      case E_ZEXT: if (k <= e->a->w) r = zlow(e->a, k); else r = Z3_mk_zero_ext(ctx, k - e->a->w, zlow(e->a, e->a->w)); break;
      case E_SEXT: if (k <= e->a->w) r = zlow(e->a, k); else r = Z3_mk_sign_ext(ctx, k - e->a->w, zlow(e->a, e->a->w)); break;
      case E_EXTRACT: if (e->aux == 0) r = zlow(e->a, k); break;
      case E_CONCAT: if (k <= e->b->w) r = zlow(e->b, k); else r = Z3_mk_concat(ctx, zlow(e->a, k - e->b->w), zlow(e->b, e->b->w)); break;
      default: break;
    }
    if (!r) { r = zraw(e); if (k < e->w) r = Z3_mk_extract(ctx, k - 1, 0, r); }
    if (Z3_get_bv_sort_size(ctx, Z3_get_sort(ctx, r)) != k) { fprintf(stderr, "zlow width: kind %d w %d k %u n %u got %u\n", e->k, e->w, k, n, Z3_get_bv_sort_size(ctx, Z3_get_sort(ctx, r))); abort(); }
    keep(r); zlowTab[key] = r; return r;
  }
  Z3_ast zcmp(Expr *e) {
    Expr *a = e->a, *b = e->b; unsigned w = a->w;
    if (w == 1 || e->hasfp) switch (e->k) {
      case E_EQ: return Z3_mk_eq(ctx, zbv(a), zbv(b)); case E_ULT: return Z3_mk_bvult(ctx, zbv(a), zbv(b)); case E_ULE: return Z3_mk_bvule(ctx, zbv(a), zbv(b));
      case E_SLT: return Z3_mk_bvslt(ctx, zbv(a), zbv(b)); default: return Z3_mk_bvsle(ctx, zbv(a), zbv(b)); }
    unsigned k = std::min(w, std::max(swidth(a->sl, a->sh), swidth(b->sl, b->sh)));
    Z3_ast x = zlow(a, k), y = zlow(b, k);   // sign extension from k bits is exact and order preserving for both orders
    switch (e->k) {
    case E_EQ: return Z3_mk_eq(ctx, x, y); case E_ULT: return Z3_mk_bvult(ctx, x, y); case E_ULE: return Z3_mk_bvule(ctx, x, y);
    case E_SLT: return Z3_mk_bvslt(ctx, x, y); default: return Z3_mk_bvsle(ctx, x, y); }
  }
  Z3_ast zbv(Expr *e) {
    if (e->zv) return e->zv;
    return e->zv = keep(e->w == 1 || e->hasfp ? zraw(e) : zlow(e, e->w));
  }
  Z3_ast zbool(Expr *e) {
    if (e->zb) return e->zb;
    Z3_ast r;
    switch (e->k) {
    case E_CONST: r = e->val ? Z3_mk_true(ctx) : Z3_mk_false(ctx); break;
    case E_NOT: r = Z3_mk_not(ctx, zbool(e->a)); break;
    case E_AND: { Z3_ast x[2] = {zbool(e->a), zbool(e->b)}; r = Z3_mk_and(ctx, 2, x); break; }
    case E_OR: { Z3_ast x[2] = {zbool(e->a), zbool(e->b)}; r = Z3_mk_or(ctx, 2, x); break; }
    case E_XOR: r = Z3_mk_xor(ctx, zbool(e->a), zbool(e->b)); break;
    case E_ITE: r = Z3_mk_ite(ctx, zbool(e->a), zbool(e->b), zbool(e->c)); break;
    case E_EQ: r = zcmp(e); break;
    case E_ULT: r = zcmp(e); break;
    case E_ULE: r = zcmp(e); break;
    case E_SLT: r = zcmp(e); break;
    case E_SLE: r = zcmp(e); break;
    case E_FEQ: r = Z3_mk_fpa_eq(ctx, tofp(e->a), tofp(e->b)); break;
    case E_FLT: r = Z3_mk_fpa_lt(ctx, tofp(e->a), tofp(e->b)); break;
    case E_FLE: r = Z3_mk_fpa_leq(ctx, tofp(e->a), tofp(e->b)); break;
    case E_FUNO: { Z3_ast x[2] = {Z3_mk_fpa_is_nan(ctx, tofp(e->a)), Z3_mk_fpa_is_nan(ctx, tofp(e->b))}; r = Z3_mk_or(ctx, 2, x); break; }
    default: r = Z3_mk_eq(ctx, zbv(e), Z3_mk_unsigned_int64(ctx, 1, Z3_mk_bv_sort(ctx, 1)));
    }
    return e->zb = keep(r);
  }
  Z3_ast zraw(Expr *e) {
    Z3_ast r;
    Z3_ast rne = nullptr;
    if (e->k >= E_FADD) rne = keep(Z3_mk_fpa_rne(ctx));
    switch (e->k) {
    case E_CONST: r = Z3_mk_unsigned_int64(ctx, e->val, Z3_mk_bv_sort(ctx, e->w)); break;
    case E_VAR: r = Z3_mk_const(ctx, Z3_mk_string_symbol(ctx, ("v" + std::to_string(e->val) + "_" + vars[e->val].name).c_str()), Z3_mk_bv_sort(ctx, e->w)); break;
    case E_ADD: r = Z3_mk_bvadd(ctx, zbv(e->a), zbv(e->b)); break;
    case E_SUB: r = Z3_mk_bvsub(ctx, zbv(e->a), zbv(e->b)); break;
    case E_MUL: r = Z3_mk_bvmul(ctx, zbv(e->a), zbv(e->b)); break;
    case E_UDIV: r = Z3_mk_bvudiv(ctx, zbv(e->a), zbv(e->b)); break;
    case E_SDIV: r = Z3_mk_bvsdiv(ctx, zbv(e->a), zbv(e->b)); break;
    case E_UREM: r = Z3_mk_bvurem(ctx, zbv(e->a), zbv(e->b)); break;
    case E_SREM: r = Z3_mk_bvsrem(ctx, zbv(e->a), zbv(e->b)); break;
    case E_SHL: r = Z3_mk_bvshl(ctx, zbv(e->a), zbv(e->b)); break;
    case E_LSHR: r = Z3_mk_bvlshr(ctx, zbv(e->a), zbv(e->b)); break;
    case E_ASHR: r = Z3_mk_bvashr(ctx, zbv(e->a), zbv(e->b)); break;
    case E_CONCAT: r = Z3_mk_concat(ctx, zbv(e->a), zbv(e->b)); break;
    case E_EXTRACT: r = Z3_mk_extract(ctx, e->aux + e->w - 1, e->aux, zbv(e->a)); break;
    case E_ZEXT: r = Z3_mk_zero_ext(ctx, e->w - e->a->w, zbv(e->a)); break;
    case E_SEXT: r = Z3_mk_sign_ext(ctx, e->w - e->a->w, zbv(e->a)); break;
    case E_FADD: r = Z3_mk_fpa_to_ieee_bv(ctx, Z3_mk_fpa_add(ctx, rne, tofp(e->a), tofp(e->b))); break;
    case E_FSUB: r = Z3_mk_fpa_to_ieee_bv(ctx, Z3_mk_fpa_sub(ctx, rne, tofp(e->a), tofp(e->b))); break;
    case E_FMUL: r = Z3_mk_fpa_to_ieee_bv(ctx, Z3_mk_fpa_mul(ctx, rne, tofp(e->a), tofp(e->b))); break;
    case E_FDIV: r = Z3_mk_fpa_to_ieee_bv(ctx, Z3_mk_fpa_div(ctx, rne, tofp(e->a), tofp(e->b))); break;
    case E_FNEG: r = Z3_mk_bvxor(ctx, zbv(e->a), Z3_mk_unsigned_int64(ctx, 1ULL << (e->w - 1), Z3_mk_bv_sort(ctx, e->w))); break;
    case E_FABS: r = Z3_mk_bvand(ctx, zbv(e->a), Z3_mk_unsigned_int64(ctx, ~(1ULL << (e->w - 1)) & maskw(e->w), Z3_mk_bv_sort(ctx, e->w))); break;
    case E_FSQRT: r = Z3_mk_fpa_to_ieee_bv(ctx, Z3_mk_fpa_sqrt(ctx, rne, tofp(e->a))); break;
    case E_FROUND: r = Z3_mk_fpa_to_ieee_bv(ctx, Z3_mk_fpa_round_to_integral(ctx, e->aux == 0 ? Z3_mk_fpa_rtp(ctx) : e->aux == 1 ? Z3_mk_fpa_rtn(ctx) : Z3_mk_fpa_rtz(ctx), tofp(e->a))); break;
    case E_SITOFP: r = Z3_mk_fpa_to_ieee_bv(ctx, Z3_mk_fpa_to_fp_signed(ctx, rne, zbv(e->a), fps(e->w))); break;
    case E_UITOFP: r = Z3_mk_fpa_to_ieee_bv(ctx, Z3_mk_fpa_to_fp_unsigned(ctx, rne, zbv(e->a), fps(e->w))); break;
    case E_FPTOSI: r = Z3_mk_fpa_to_sbv(ctx, Z3_mk_fpa_rtz(ctx), tofp(e->a), e->w); break;
    case E_FPTOUI: r = Z3_mk_fpa_to_ubv(ctx, Z3_mk_fpa_rtz(ctx), tofp(e->a), e->w); break;
    case E_FPCAST: r = Z3_mk_fpa_to_ieee_bv(ctx, Z3_mk_fpa_to_fp_float(ctx, rne, tofp(e->a), fps(e->w))); break;
    default:
      if (e->w == 1) {
        Z3_sort s1 = Z3_mk_bv_sort(ctx, 1);
        r = Z3_mk_ite(ctx, zbool(e), Z3_mk_unsigned_int64(ctx, 1, s1), Z3_mk_unsigned_int64(ctx, 0, s1));
      } else if (e->k == E_AND) r = Z3_mk_bvand(ctx, zbv(e->a), zbv(e->b));
      else if (e->k == E_OR) r = Z3_mk_bvor(ctx, zbv(e->a), zbv(e->b));
      else if (e->k == E_XOR) r = Z3_mk_bvxor(ctx, zbv(e->a), zbv(e->b));
      else r = Z3_mk_ite(ctx, zbool(e->a), zbv(e->b), zbv(e->c));
    }
    return r;
  }
};
