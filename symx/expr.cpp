#include "expr.h"
#include <algorithm>
#include <cstdio>
#include <cstdlib>

typedef unsigned __int128 u128;
typedef __int128 s128;

const char* kindNames[] = {"const", "var", "add", "sub", "mul", "udiv", "sdiv", "urem", "srem", "and", "or", "xor",
  "shl", "lshr", "ashr", "eq", "ult", "ule", "slt", "sle", "ite", "concat", "extract", "zext", "sext", "fadd", "fsub",
  "fmul", "fdiv", "frem", "feq", "flt", "fle", "funo", "fsqrt", "fround", "f2f", "f2si", "f2ui", "si2f", "ui2f", "fun",
  "rvar", "rconst", "r+", "r*", "r/", "rfun", "rofbv", "r<", "r<=", "r=", "rite", "rbits", "agg"};

std::vector<VarInfo> g_vars;

static u128 maskW(int w) { return w >= 128 ? ~(u128)0 : (((u128)1 << w) - 1); }
static u128 cval(const Expr* e) { return ((u128)e->b << 64) | e->a; }
static s128 sx(u128 v, int w) { if (w >= 128) return (s128)v; u128 m = (u128)1 << (w - 1); v &= maskW(w); return (s128)((v ^ m) - m); }

struct Key { const Expr* e; };
struct HashE { size_t operator()(const Key& k) const { return k.e->hash; } };
struct EqE {
  bool operator()(const Key& p, const Key& q) const {
    const Expr *x = p.e, *y = q.e;
    return x->k == y->k && x->w == y->w && x->n == y->n && x->a == y->a && x->b == y->b && x->x[0] == y->x[0] &&
           x->x[1] == y->x[1] && x->x[2] == y->x[2] && (x->k != K_RCONST || x->r == y->r);
  }
};
#include <unordered_set>
static std::unordered_set<Key, HashE, EqE> g_tab;
static uint32_t g_next = 1;
static char* g_arena = nullptr; static size_t g_left = 0;
static const Expr* intern(Kind k, int w, uint64_t a, uint64_t b, const Expr* x0 = nullptr, const Expr* x1 = nullptr,
                          const Expr* x2 = nullptr, long double r = 0) {
  Expr t;
  t.k = k; t.w = w; t.a = a; t.b = b; t.x[0] = x0; t.x[1] = x1; t.x[2] = x2; t.r = r;
  t.n = x2 ? 3 : x1 ? 2 : x0 ? 1 : 0;
  uint64_t h = k * 0x9E3779B97F4A7C15ull + w;
  auto mix = [&](uint64_t v) { h ^= v + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; h ^= h >> 29; };
  mix(a); mix(b);
  for (int i = 0; i < t.n; i++) mix(t.x[i]->id);
  if (k == K_RCONST) { double d = (double)r; uint64_t u; memcpy(&u, &d, 8); mix(u); }
  t.hash = (uint32_t)h;
  auto it = g_tab.find(Key{&t});
  if (it != g_tab.end()) return it->e;
  if (g_left < sizeof(Expr)) { g_arena = (char*)malloc(1 << 20); g_left = 1 << 20; }
  Expr* e = new (g_arena) Expr(t);
  g_arena += sizeof(Expr); g_left -= sizeof(Expr);
  e->id = g_next++;
  uint8_t fl = 0;
  for (int i = 0; i < e->n; i++) fl |= e->x[i]->flags;
  if (k >= K_FADD && k <= K_UI2F) fl |= 1;
  if (k == K_FUN) fl |= 4;
  if (k >= K_RVAR && k <= K_RBITS) fl |= 2;
  if (k == K_RFUN) fl |= 4;
  e->flags = fl;
  g_tab.insert(Key{e});
  return e;
}

const Expr* mkConst(uint64_t v, int w) { return intern(K_CONST, w, v & maskw(w > 64 ? 64 : w), 0); }
const Expr* mkConst128(uint64_t lo, uint64_t hi, int w) {
  u128 v = (((u128)hi << 64) | lo) & maskW(w);
  return intern(K_CONST, w, (uint64_t)v, (uint64_t)(v >> 64));
}
static const Expr* mkC(u128 v, int w) { v &= maskW(w); return intern(K_CONST, w, (uint64_t)v, (uint64_t)(v >> 64)); }
const Expr* mkVar(const std::string& name, int w, bool input, double lo, double hi, int kind) {
  g_vars.push_back({name, w, false, input, lo, hi, kind});
  return intern(K_VAR, w, g_vars.size() - 1, 0);
}
const Expr* mkRVar(const std::string& name, bool input, double lo, double hi, int kind) {
  g_vars.push_back({name, 0, true, input, lo, hi, kind});
  return intern(K_RVAR, 0, g_vars.size() - 1, 0);
}

static u128 foldBin(Kind k, u128 a, u128 b, int w) {
  u128 m = maskW(w);
  switch (k) {
    case K_ADD: return (a + b) & m;
    case K_SUB: return (a - b) & m;
    case K_MUL: return (a * b) & m;
    case K_UDIV: return b ? a / b : m;
    case K_UREM: return b ? a % b : a;
    case K_SDIV: { s128 x = sx(a, w), y = sx(b, w); if (!y) return x < 0 ? 1 : m; if (y == -1) return (u128)(-x) & m; return (u128)(x / y) & m; }
    case K_SREM: { s128 x = sx(a, w), y = sx(b, w); if (!y) return a; if (y == -1) return 0; return (u128)(x % y) & m; }
    case K_AND: return a & b;
    case K_OR: return a | b;
    case K_XOR: return a ^ b;
    case K_SHL: return b >= (u128)w ? 0 : (a << (int)b) & m;
    case K_LSHR: return b >= (u128)w ? 0 : a >> (int)b;
    case K_ASHR: { s128 x = sx(a, w); int s = b >= (u128)w ? w - 1 : (int)b; return (u128)(x >> s) & m; }
    default: abort();
  }
}

// unsigned interval of an expression, from the declared ranges of the inputs (which every path condition contains)
bool g_useRanges = true;
static bool ivl(const Expr* e, u128& lo, u128& hi, int d = 0) {
  if (e->w == 0 || e->w > 64) return false;
  u128 l, h, m = maskW(e->w);
  if (e->k == K_CONST) { lo = hi = cval(e); return true; }
  if (d > 8) return false;
  switch (e->k) {
    case K_VAR: { const VarInfo& v = g_vars[e->a]; if (v.kind == 1 && v.lo >= 0 && v.hi >= v.lo && v.hi < 9007199254740992.0) { lo = (u128)v.lo; hi = (u128)v.hi; return true; } return false; }
    case K_ZEXT: if (ivl(e->x[0], l, h, d + 1)) { lo = l; hi = h; } else { lo = 0; hi = maskW(e->x[0]->w); } return true;
    case K_EXTRACT: if (!ivl(e->x[0], l, h, d + 1)) return false; l >>= (int)e->a; h >>= (int)e->a; if (h > m) return false; lo = l; hi = h; return true;
    case K_ADD: {
      u128 p, q; if (!ivl(e->x[0], l, h, d + 1) || !ivl(e->x[1], p, q, d + 1)) return false;
      if (h + q <= m) { lo = l + p; hi = h + q; return true; }
      if (p == q && p > (m >> 1)) { u128 n = m + 1 - p; if (l >= n) { lo = l - n; hi = h - n; return true; } }
      return false; }
    case K_SUB: { u128 p, q; if (!ivl(e->x[0], l, h, d + 1) || !ivl(e->x[1], p, q, d + 1) || l < q) return false; lo = l - q; hi = h - p; return true; }
    case K_MUL: { u128 p, q; if (!ivl(e->x[0], l, h, d + 1) || !ivl(e->x[1], p, q, d + 1) || h > (u128)~0ull || q > (u128)~0ull || h * q > m) return false; lo = l * p; hi = h * q; return true; }
    case K_SHL: if (e->x[1]->k != K_CONST || cval(e->x[1]) > 62 || !ivl(e->x[0], l, h, d + 1)) return false; { int s = (int)cval(e->x[1]); if ((h << s) > m) return false; lo = l << s; hi = h << s; return true; }
    case K_CONCAT: { u128 p, q; if (!ivl(e->x[0], l, h, d + 1)) return false; if (!ivl(e->x[1], p, q, d + 1)) { p = 0; q = maskW(e->x[1]->w); } lo = (l << e->x[1]->w) + p; hi = (h << e->x[1]->w) + q; return true; }
    case K_UDIV: if (e->x[1]->k != K_CONST || cval(e->x[1]) == 0 || !ivl(e->x[0], l, h, d + 1)) return false; lo = l / cval(e->x[1]); hi = h / cval(e->x[1]); return true;
    case K_AND: if (e->x[1]->k != K_CONST || !ivl(e->x[0], l, h, d + 1)) return false; { u128 v = cval(e->x[1]); int t = 0; while (t < e->w && !((v >> t) & 1)) t++; if ((l >> t) == (h >> t)) { lo = hi = l & v; return true; } lo = 0; hi = h < v ? h : v; return true; }
    case K_ITE: { u128 p, q; if (!ivl(e->x[1], l, h, d + 1) || !ivl(e->x[2], p, q, d + 1)) return false; lo = l < p ? l : p; hi = h > q ? h : q; return true; }
    default: return false;
  }
}
static const Expr* single(const Expr* e) { u128 l, h; return g_useRanges && ivl(e, l, h) && l == h ? mkC(l, e->w) : e; }

const Expr* mkBin(Kind k, const Expr* a, const Expr* b) {
  int w = a->w;
  if (isC(a) && isC(b)) return mkC(foldBin(k, cval(a), cval(b), w), w);
  bool comm = k == K_ADD || k == K_MUL || k == K_AND || k == K_OR || k == K_XOR;
  if (comm && (isC(a) || (!isC(b) && a->id > b->id))) std::swap(a, b);
  u128 m = maskW(w);
  if (isC(b)) {
    u128 v = cval(b);
    switch (k) {
      case K_ADD: if (v == 0) return a;
        if (a->k == K_ADD && isC(a->x[1])) return mkBin(K_ADD, a->x[0], mkC(cval(a->x[1]) + v, w));
        break;
      case K_SUB: return mkBin(K_ADD, a, mkC((u128)0 - v, w));
      case K_MUL: if (v == 0) return b; if (v == 1) return a;
        if (a->k == K_MUL && isC(a->x[1])) return mkBin(K_MUL, a->x[0], mkC(cval(a->x[1]) * v, w));
        if (v && !(v & (v - 1))) { int s = 0; while (!((v >> s) & 1)) s++; return mkBin(K_SHL, a, mkC(s, w)); }
        break;
      case K_UDIV: if (v == 1) return a;
        if (v && !(v & (v - 1))) { int s = 0; while (!((v >> s) & 1)) s++; return mkBin(K_LSHR, a, mkC(s, w)); }
        break;
      case K_SDIV: if (v == 1) return a; break;
      case K_UREM: if (v && !(v & (v - 1))) return mkBin(K_AND, a, mkC(v - 1, w)); break;
      case K_AND: if (v == 0) return b; if (v == m) return a;
        if (a->k == K_ZEXT && (v & maskW(a->x[0]->w)) == maskW(a->x[0]->w)) return a;
        if (a->k == K_AND && isC(a->x[1])) return mkBin(K_AND, a->x[0], mkC(cval(a->x[1]) & v, w));
        break;
      case K_OR: if (v == 0) return a; if (v == m) return b; break;
      case K_XOR: if (v == 0) return a;
        if (a->k == K_XOR && isC(a->x[1])) return mkBin(K_XOR, a->x[0], mkC(cval(a->x[1]) ^ v, w));
        if (w == 1) {  // negation pushing for comparisons
          if (a->k == K_ULT) return mkCmp(K_ULE, a->x[1], a->x[0]);
          if (a->k == K_ULE) return mkCmp(K_ULT, a->x[1], a->x[0]);
          if (a->k == K_SLT) return mkCmp(K_SLE, a->x[1], a->x[0]);
          if (a->k == K_SLE) return mkCmp(K_SLT, a->x[1], a->x[0]);
          if (a->k == K_RLT) return mkRCmp(K_RLE, a->x[1], a->x[0]);
          if (a->k == K_RLE) return mkRCmp(K_RLT, a->x[1], a->x[0]);
        }
        break;
      case K_SHL: case K_LSHR: case K_ASHR:
        if (v == 0) return a;
        if (k != K_ASHR && v >= (u128)w) return mkC(0, w);
        if (k == K_LSHR) { int s = (int)v; return mkZext(mkExtract(a, s, w - s), w); }
        if (k == K_SHL && a->k == K_SHL && isC(a->x[1])) { u128 t = cval(a->x[1]) + v; return t >= (u128)w ? mkC(0, w) : mkBin(K_SHL, a->x[0], mkC(t, w)); }
        if (k == K_ASHR && a->k == K_SHL && isC(a->x[1]) && cval(a->x[1]) == v) return mkSext(mkExtract(a->x[0], 0, w - (int)v), w);
        break;
      default: break;
    }
  }
  if (isC(a)) {
    u128 v = cval(a);
    if (v == 0 && (k == K_SHL || k == K_LSHR || k == K_ASHR)) return a;
  }
  if (a == b) {
    switch (k) {
      case K_SUB: case K_XOR: return mkC(0, w);
      case K_AND: case K_OR: return a;
      default: break;
    }
  }
  if (k == K_SUB && a->k == K_ADD) { if (a->x[0] == b) return a->x[1]; if (a->x[1] == b) return a->x[0]; }
  if (k == K_SUB && a->k == K_ADD && b->k == K_ADD && isC(a->x[1]) && isC(b->x[1]))
    return mkBin(K_ADD, mkBin(K_SUB, a->x[0], b->x[0]), mkC(cval(a->x[1]) - cval(b->x[1]), w));
  if (k == K_SUB && b->k == K_ADD && isC(b->x[1])) return mkBin(K_ADD, mkBin(K_SUB, a, b->x[0]), mkC((u128)0 - cval(b->x[1]), w));
  if (k == K_SUB && a->k == K_ADD && isC(a->x[1])) return mkBin(K_ADD, mkBin(K_SUB, a->x[0], b), a->x[1]);
  if (k == K_ADD && a->k == K_ADD && isC(a->x[1])) return mkBin(K_ADD, mkBin(K_ADD, a->x[0], b), a->x[1]);
  if (k == K_ADD && b->k == K_ADD && isC(b->x[1])) return mkBin(K_ADD, mkBin(K_ADD, a, b->x[0]), b->x[1]);
  if (k == K_ADD && a->k == K_SUB && a->x[1] == b) return a->x[0];
  if (k == K_ADD && b->k == K_SUB && b->x[1] == a) return b->x[0];
  if (k == K_OR && w > 1) {  // or of disjoint concat-like pieces
    auto isShlZ = [](const Expr* e, const Expr*& inner, int& s) {
      if (e->k == K_SHL && isC(e->x[1])) { s = (int)e->x[1]->a; inner = e->x[0]; return true; }
      if (e->k == K_CONCAT && isC(e->x[1]) && cval(e->x[1]) == 0) { s = e->x[1]->w; inner = e->x[0]; return true; }
      return false; };
    const Expr* in; int s;
    for (int t = 0; t < 2; t++) {
      const Expr *p = t ? b : a, *q = t ? a : b;
      if (isShlZ(p, in, s) && q->k == K_ZEXT && q->x[0]->w <= s) {
        const Expr* hi = mkExtract(in, 0, w - s);
        return mkConcat(hi, mkZext(q->x[0], s));
      }
    }
  }
  if (w > 1 && (k == K_AND || k == K_UDIV) && isC(b)) return single(intern(k, w, 0, 0, a, b));
  return intern(k, w, 0, 0, a, b);
}

static bool foldCmp(Kind k, u128 a, u128 b, int w) {
  switch (k) {
    case K_EQ: return a == b;
    case K_ULT: return a < b;
    case K_ULE: return a <= b;
    case K_SLT: return sx(a, w) < sx(b, w);
    case K_SLE: return sx(a, w) <= sx(b, w);
    default: abort();
  }
}

const Expr* mkCmp(Kind k, const Expr* a, const Expr* b) {
  int w = a->w;
  if (isC(a) && isC(b)) return mkC(foldCmp(k, cval(a), cval(b), w), 1);
  if (a == b) return mkC(k == K_EQ || k == K_ULE || k == K_SLE, 1);
  if (k == K_EQ) {
    if (isC(a) || (!isC(b) && a->id > b->id)) std::swap(a, b);
    if (w == 1 && isC(b)) return cval(b) ? a : mkNot(a);
    if (a->k == K_RBITS && b->k == K_RBITS) return mkRCmp(K_REQ, a->x[0], b->x[0]);
    if (isC(b)) {
      if (a->k == K_ADD && isC(a->x[1])) return mkCmp(K_EQ, a->x[0], mkC(cval(b) - cval(a->x[1]), w));
      if (a->k == K_XOR && isC(a->x[1])) return mkCmp(K_EQ, a->x[0], mkC(cval(b) ^ cval(a->x[1]), w));
      if (a->k == K_ZEXT) {
        if (cval(b) & ~maskW(a->x[0]->w)) return mkC(0, 1);
        return mkCmp(K_EQ, a->x[0], mkC(cval(b), a->x[0]->w));
      }
      if (a->k == K_SEXT) {
        int iw = a->x[0]->w;
        if ((u128)(sx(cval(b), iw)) != (u128)sx(cval(b), w)) { if (((u128)sx(cval(b), iw) & maskW(w)) != cval(b)) return mkC(0, 1); }
        return mkCmp(K_EQ, a->x[0], mkC(cval(b), iw));
      }
      if (a->k == K_ITE && isC(a->x[1]) && isC(a->x[2])) {
        bool t = cval(a->x[1]) == cval(b), f = cval(a->x[2]) == cval(b);
        if (t && f) return mkC(1, 1);
        if (t) return a->x[0];
        if (f) return mkNot(a->x[0]);
        return mkC(0, 1);
      }
      if (a->k == K_CONCAT) {
        int lw = a->x[1]->w;
        return mkAndB(mkCmp(K_EQ, a->x[0], mkC(cval(b) >> lw, w - lw)), mkCmp(K_EQ, a->x[1], mkC(cval(b), lw)));
      }
    } else {
      if (a->k == K_ZEXT && b->k == K_ZEXT && a->x[0]->w == b->x[0]->w) return mkCmp(K_EQ, a->x[0], b->x[0]);
      if (a->k == K_SEXT && b->k == K_SEXT && a->x[0]->w == b->x[0]->w) return mkCmp(K_EQ, a->x[0], b->x[0]);
      if (a->k == K_ADD && b->k == K_ADD) {
        if (a->x[0] == b->x[0]) return mkCmp(K_EQ, a->x[1], b->x[1]);
        if (a->x[1] == b->x[1]) return mkCmp(K_EQ, a->x[0], b->x[0]);
      }
    }
  }
  if (k == K_ULT && isC(b) && cval(b) == 0) return mkC(0, 1);
  if (k == K_ULE && isC(a) && cval(a) == 0) return mkC(1, 1);
  if (k == K_ULT && isC(b) && cval(b) == 1) return mkCmp(K_EQ, a, mkC(0, w));
  if ((k == K_ULT || k == K_ULE || k == K_SLT || k == K_SLE)) {
    bool sg = k == K_SLT || k == K_SLE;
    if (a->k == K_ZEXT && b->k == K_ZEXT && a->x[0]->w == b->x[0]->w)
      return mkCmp(k == K_SLT ? K_ULT : k == K_SLE ? K_ULE : k, a->x[0], b->x[0]);
    if (a->k == K_SEXT && b->k == K_SEXT && a->x[0]->w == b->x[0]->w) return mkCmp(k, a->x[0], b->x[0]);
    // sext/zext against constants
    if (sg && a->k == K_SEXT && isC(b)) {
      int iw = a->x[0]->w; s128 v = sx(cval(b), w), mx = ((s128)1 << (iw - 1)) - 1, mn = -((s128)1 << (iw - 1));
      if (v > mx) return mkC(1, 1);
      if (v < mn) return mkC(0, 1);
      return mkCmp(k, a->x[0], mkC((u128)v, iw));
    }
    if (sg && b->k == K_SEXT && isC(a)) {
      int iw = b->x[0]->w; s128 v = sx(cval(a), w), mx = ((s128)1 << (iw - 1)) - 1, mn = -((s128)1 << (iw - 1));
      if (v > mx) return mkC(0, 1);
      if (v < mn) return mkC(1, 1);
      return mkCmp(k, mkC((u128)v, iw), b->x[0]);
    }
    if (a->k == K_ZEXT && isC(b)) {
      int iw = a->x[0]->w; 
      if (sg && sx(cval(b), w) < 0) return mkC(0, 1);
      if (cval(b) > maskW(iw)) return mkC(1, 1);
      return mkCmp(sg ? (k == K_SLT ? K_ULT : K_ULE) : k, a->x[0], mkC(cval(b), iw));
    }
    if (b->k == K_ZEXT && isC(a)) {
      int iw = b->x[0]->w;
      if (sg && sx(cval(a), w) < 0) return mkC(1, 1);
      if (cval(a) > maskW(iw)) return mkC(0, 1);
      return mkCmp(sg ? (k == K_SLT ? K_ULT : K_ULE) : k, mkC(cval(a), iw), b->x[0]);
    }
  }
  if (g_useRanges && w > 1) {
    u128 l, h, p, q;
    if (ivl(a, l, h) && ivl(b, p, q)) {
      if (k == K_EQ) { if (h < p || q < l) return mkC(0, 1); }
      else if (k == K_ULT || k == K_ULE || (h <= (maskW(w) >> 1) && q <= (maskW(w) >> 1))) {
        bool strict = k == K_ULT || k == K_SLT;
        if (strict ? h < p : h <= p) return mkC(1, 1);
        if (strict ? l >= q : l > q) return mkC(0, 1);
      }
    }
  }
  return intern(k, 1, 0, 0, a, b);
}
const Expr* mkNot(const Expr* a) { return mkBin(K_XOR, a, mkC(1, 1)); }
const Expr* mkAndB(const Expr* a, const Expr* b) { return mkBin(K_AND, a, b); }
const Expr* mkOrB(const Expr* a, const Expr* b) { return mkBin(K_OR, a, b); }
const Expr* mkIte(const Expr* c, const Expr* a, const Expr* b) {
  if (isC(c)) return c->a ? a : b;
  if (a == b) return a;
  if (a->w == 1) {
    if (isC(a) && isC(b)) return a->a ? c : mkNot(c);
    if (isC(a)) return a->a ? mkOrB(c, b) : mkAndB(mkNot(c), b);
    if (isC(b)) return b->a ? mkOrB(mkNot(c), a) : mkAndB(c, a);
  }
  return intern(K_ITE, a->w, 0, 0, c, a, b);
}
const Expr* mkExtract(const Expr* a, int off, int w) {
  if (off == 0 && w == a->w) return a;
  if (isC(a)) return mkC(cval(a) >> off, w);
  switch (a->k) {
    case K_EXTRACT: return mkExtract(a->x[0], off + (int)a->a, w);
    case K_CONCAT: {
      int lw = a->x[1]->w;
      if (off + w <= lw) return mkExtract(a->x[1], off, w);
      if (off >= lw) return mkExtract(a->x[0], off - lw, w);
      return mkConcat(mkExtract(a->x[0], 0, off + w - lw), mkExtract(a->x[1], off, lw - off));
    }
    case K_ZEXT: {
      int iw = a->x[0]->w;
      if (off + w <= iw) return mkExtract(a->x[0], off, w);
      if (off >= iw) return mkC(0, w);
      return mkZext(mkExtract(a->x[0], off, iw - off), w);
    }
    case K_SEXT: {
      int iw = a->x[0]->w;
      if (off + w <= iw) return mkExtract(a->x[0], off, w);
      if (off == 0) return mkSext(a->x[0], w);
      break;
    }
    case K_AND: case K_OR: case K_XOR:
      if (isC(a->x[1]) || off == 0) return mkBin(a->k, mkExtract(a->x[0], off, w), mkExtract(a->x[1], off, w));
      break;
    case K_ADD: case K_SUB: case K_MUL:
      if (off == 0) return mkBin(a->k, mkExtract(a->x[0], 0, w), mkExtract(a->x[1], 0, w));
      break;
    case K_SHL:
      if (isC(a->x[1])) {
        int s = (int)a->x[1]->a;
        if (off >= s) return mkExtract(a->x[0], off - s, w);
        if (off + w <= s) return mkC(0, w);
        return mkConcat(mkExtract(a->x[0], 0, off + w - s), mkC(0, s - off));
      }
      break;
    case K_ITE:
      if (isC(a->x[1]) || isC(a->x[2])) return mkIte(a->x[0], mkExtract(a->x[1], off, w), mkExtract(a->x[2], off, w));
      break;
    default: break;
  }
  return single(intern(K_EXTRACT, w, off, 0, a));
}
const Expr* mkConcat(const Expr* hi, const Expr* lo) {
  int w = hi->w + lo->w;
  if (isC(hi) && isC(lo)) return mkC((cval(hi) << lo->w) | cval(lo), w);
  if (hi->k == K_EXTRACT && lo->k == K_EXTRACT && hi->x[0] == lo->x[0] && hi->a == lo->a + lo->w) return mkExtract(hi->x[0], (int)lo->a, w);
  if (isC(hi) && cval(hi) == 0) return mkZext(lo, w);
  if (hi->k == K_EXTRACT && hi->x[0] == lo && hi->a == lo->w) return mkExtract(lo, 0, w);
  if (lo->k == K_CONCAT && hi->k == K_EXTRACT && lo->x[0]->k == K_EXTRACT && hi->x[0] == lo->x[0]->x[0] && hi->a == lo->x[0]->a + lo->x[0]->w)
    return mkConcat(mkExtract(hi->x[0], (int)lo->x[0]->a, hi->w + lo->x[0]->w), lo->x[1]);
  return intern(K_CONCAT, w, 0, 0, hi, lo);
}
const Expr* mkZext(const Expr* a, int w) {
  if (a->w == w) return a;
  if (isC(a)) return mkC(cval(a), w);
  if (a->k == K_ZEXT) return mkZext(a->x[0], w);
  return intern(K_ZEXT, w, 0, 0, a);
}
const Expr* mkSext(const Expr* a, int w) {
  if (a->w == w) return a;
  if (isC(a)) return mkC((u128)sx(cval(a), a->w), w);
  if (a->k == K_SEXT) return mkSext(a->x[0], w);
  if (a->k == K_ZEXT) return mkZext(a->x[0], w);
  return intern(K_SEXT, w, 0, 0, a);
}

static float f32(uint64_t v) { float f; uint32_t u = (uint32_t)v; memcpy(&f, &u, 4); return f; }
static uint64_t b32(float f) { uint32_t u; memcpy(&u, &f, 4); return u; }
static double f64(uint64_t v) { double d; memcpy(&d, &v, 8); return d; }
static uint64_t b64(double d) { uint64_t u; memcpy(&u, &d, 8); return u; }

uint64_t fpBin(Kind k, int w, uint64_t a, uint64_t b) {
  if (w == 32) {
    float x = f32(a), y = f32(b);
    switch (k) {
      case K_FADD: return b32(x + y); case K_FSUB: return b32(x - y); case K_FMUL: return b32(x * y);
      case K_FDIV: return b32(x / y); case K_FREM: return b32(fmodf(x, y)); default: abort();
    }
  }
  double x = f64(a), y = f64(b);
  switch (k) {
    case K_FADD: return b64(x + y); case K_FSUB: return b64(x - y); case K_FMUL: return b64(x * y);
    case K_FDIV: return b64(x / y); case K_FREM: return b64(fmod(x, y)); default: abort();
  }
}
bool fpCmp(Kind k, int w, uint64_t a, uint64_t b) {
  double x = w == 32 ? (double)f32(a) : f64(a), y = w == 32 ? (double)f32(b) : f64(b);
  switch (k) {
    case K_FEQ: return x == y; case K_FLT: return x < y; case K_FLE: return x <= y;
    case K_FUNO: return std::isnan(x) || std::isnan(y); default: abort();
  }
}
static double fround(int mode, double x) {
  switch (mode) { case 0: return floor(x); case 1: return ceil(x); case 2: return trunc(x); case 3: return rint(x); default: return round(x); }
}
static u128 f2si(double d, int w) { if (std::isnan(d)) return 0; return (u128)(s128)d & maskW(w); }

static bool fpFold(Kind k, int w, const Expr* a, const Expr* b, uint64_t aux, uint64_t& out) {
  switch (k) {
    case K_FADD: case K_FSUB: case K_FMUL: case K_FDIV: case K_FREM: out = fpBin(k, w, a->a, b->a); return true;
    case K_FEQ: case K_FLT: case K_FLE: case K_FUNO: out = fpCmp(k, a->w, a->a, b->a); return true;
    case K_FSQRT: out = w == 32 ? b32(sqrtf(f32(a->a))) : b64(sqrt(f64(a->a))); return true;
    case K_FROUND: out = w == 32 ? b32((float)fround((int)aux, f32(a->a))) : b64(fround((int)aux, f64(a->a))); return true;
    case K_F2F: out = a->w == w ? a->a : w == 32 ? b32((float)f64(a->a)) : b64((double)f32(a->a)); return true;
    case K_F2SI: out = (uint64_t)f2si(a->w == 32 ? f32(a->a) : f64(a->a), w); return true;
    case K_F2UI: { double d = a->w == 32 ? f32(a->a) : f64(a->a); out = (d < 0 || std::isnan(d)) ? 0 : (uint64_t)((u128)d & maskW(w)); return true; }
    case K_SI2F: { int64_t v = sextw(a->a, a->w); out = w == 32 ? b32((float)v) : b64((double)v); return true; }
    case K_UI2F: { uint64_t v = a->a & maskw(a->w); out = w == 32 ? b32((float)v) : b64((double)v); return true; }
    default: return false;
  }
}
// drops additions of zero where only the sign of a zero could differ (operands of comparisons)
static const Expr* stripZ(const Expr* e, int depth) {
  auto zero = [](const Expr* c) { return isC(c) && (c->a & maskw(c->w - 1)) == 0; };
  if (depth == 0) return e;
  if (e->k == K_FADD) { if (zero(e->x[0])) return stripZ(e->x[1], depth - 1); if (zero(e->x[1])) return stripZ(e->x[0], depth - 1); }
  if (e->k == K_FADD || e->k == K_FMUL) { const Expr *a = stripZ(e->x[0], depth - 1), *b = stripZ(e->x[1], depth - 1); return a == e->x[0] && b == e->x[1] ? e : mkFP(e->k, e->w, a, b, e->a); }
  return e;
}
const Expr* mkFP(Kind k, int w, const Expr* a, const Expr* b, uint64_t aux) {
  uint64_t o;
  if (k == K_FLT || k == K_FLE || k == K_FEQ) { a = stripZ(a, 4); b = stripZ(b, 4); if (k == K_FLT && a == b) return mkConst(0, 1); }
  if (isC(a) && (!b || isC(b)) && fpFold(k, w, a, b, aux, o)) return mkConst(o, w);
  if ((k == K_FADD || k == K_FMUL || k == K_FEQ || k == K_FUNO) && a->id > b->id) std::swap(a, b);
  if (k == K_F2F && a->w == w) return a;
  if (k == K_F2F && w == 32 && a->k == K_F2F && a->x[0]->w == 32) return a->x[0];  // NaN payload canonicalisation aside
  return intern(k, w, aux, 0, a, b);
}
const Expr* mkFun(uint64_t fun, int w, const Expr* a, const Expr* b) { return intern(K_FUN, w, fun, 0, a, b); }

// ---------------------------------------------------------------- reals
const Expr* mkRConst(long double v) { if (v == 0) v = 0; return intern(K_RCONST, 0, 0, 0, nullptr, nullptr, nullptr, v); }
static bool isRC(const Expr* e) { return e->k == K_RCONST; }
const Expr* mkRNeg(const Expr* a) { return mkR(K_RMUL, a, mkRConst(-1)); }
const Expr* mkR(Kind k, const Expr* a, const Expr* b) {
  if (isRC(a) && isRC(b)) {
    if (k == K_RADD) return mkRConst(a->r + b->r);
    if (k == K_RMUL) return mkRConst(a->r * b->r);
    if (k == K_RDIV) return mkRConst(a->r / b->r);
  }
  if (k == K_RDIV) {
    if (isRC(b)) return mkR(K_RMUL, a, mkRConst(1.0L / b->r));
    if (isRC(a) && a->r == 0) return a;
    return intern(k, 0, 0, 0, a, b);
  }
  if (isRC(a) || (!isRC(b) && a->id > b->id)) std::swap(a, b);
  if (k == K_RADD && isRC(b) && b->r == 0) return a;
  if (k == K_RMUL && isRC(b) && b->r == 1) return a;
  if (k == K_RMUL && isRC(b) && b->r == 0) return b;
  if (k == K_RMUL && isRC(b) && a->k == K_RMUL && isRC(a->x[1])) return mkR(K_RMUL, a->x[0], mkRConst(a->x[1]->r * b->r));
  if (k == K_RADD && isRC(b) && a->k == K_RADD && isRC(a->x[1])) return mkR(K_RADD, a->x[0], mkRConst(a->x[1]->r + b->r));
  if (k == K_RADD) {  // x + (-1)x
    if (b->k == K_RMUL && isRC(b->x[1]) && b->x[0] == a) return mkR(K_RMUL, a, mkRConst(b->x[1]->r + 1));
    if (a->k == K_RMUL && isRC(a->x[1]) && a->x[0] == b) return mkR(K_RMUL, b, mkRConst(a->x[1]->r + 1));
  }
  return intern(k, 0, 0, 0, a, b);
}
const Expr* mkRCmp(Kind k, const Expr* a, const Expr* b) {
  if (isRC(a) && isRC(b)) return mkC(k == K_RLT ? a->r < b->r : k == K_RLE ? a->r <= b->r : a->r == b->r, 1);
  if (a == b) return mkC(k != K_RLT, 1);
  if (k == K_REQ && a->id > b->id) std::swap(a, b);
  return intern(k, 1, 0, 0, a, b);
}
const Expr* mkRFun(int fun, const Expr* a, const Expr* b) {
  if (isRC(a) && (!b || isRC(b))) {
    switch (fun) {
      case RF_EXP: return mkRConst(expl(a->r));
      case RF_LOG: if (a->r > 0) return mkRConst(logl(a->r)); break;
      case RF_SQRT: if (a->r >= 0) return mkRConst(sqrtl(a->r)); break;
      case RF_SIN: return mkRConst(sinl(a->r));
      case RF_COS: return mkRConst(cosl(a->r));
      case RF_TANH: return mkRConst(tanhl(a->r));
      case RF_ERF: return mkRConst(erfl(a->r));
      case RF_POW: return mkRConst(powl(a->r, b->r));
    }
  }
  if (fun == RF_POW && isRC(b)) {
    long double p = b->r;
    if (p == floorl(p) && fabsl(p) <= 16) {
      int n = (int)fabsl(p);
      const Expr* r = mkRConst(1);
      for (int i = 0; i < n; i++) r = mkR(K_RMUL, r, a);
      return p < 0 ? mkR(K_RDIV, mkRConst(1), r) : r;
    }
    if (p == 0.5L) return mkRFun(RF_SQRT, a);
    if (p == -0.5L) return mkR(K_RDIV, mkRConst(1), mkRFun(RF_SQRT, a));
  }
  return intern(K_RFUN, 0, fun, 0, a, b);
}
const Expr* mkROfBV(const Expr* a, bool sgn) {
  if (isC(a)) return mkRConst(sgn ? (long double)(int64_t)sx(cval(a), a->w) : (long double)cval(a));
  return intern(K_ROFBV, 0, sgn, 0, a);
}
const Expr* mkRBits(const Expr* a, int w) { return intern(K_RBITS, w, 0, 0, a); }
const Expr* mkRIte(const Expr* c, const Expr* a, const Expr* b) {
  if (isC(c)) return c->a ? a : b;
  if (a == b) return a;
  return intern(K_RITE, 0, 0, 0, c, a, b);
}
const Expr* mkAgg(std::vector<Val>&& v) {
  Expr* e = new Expr();
  e->k = K_AGG; e->w = 0; e->id = 0; e->n = 0; e->flags = 0; e->hash = 0; e->a = e->b = 0;
  e->agg = new std::vector<Val>(std::move(v));
  return e;
}

// ---------------------------------------------------------------- evaluation
bool evalOK(const Expr* e) { return !(e->flags & 4); }
unsigned __int128 evalBV(const Expr* e, EvalCtx& c) {
  if (e->k == K_CONST) return cval(e);
  auto it = c.mb.find(e);
  if (it != c.mb.end()) return it->second;
  u128 r = 0;
  switch (e->k) {
    case K_VAR: { auto j = c.as->bv.find(e->a); r = j == c.as->bv.end() ? 0 : j->second; r &= maskW(e->w); break; }
    case K_ADD: case K_SUB: case K_MUL: case K_UDIV: case K_SDIV: case K_UREM: case K_SREM: case K_AND: case K_OR:
    case K_XOR: case K_SHL: case K_LSHR: case K_ASHR: r = foldBin(e->k, evalBV(e->x[0], c), evalBV(e->x[1], c), e->w); break;
    case K_EQ: case K_ULT: case K_ULE: case K_SLT: case K_SLE: r = foldCmp(e->k, evalBV(e->x[0], c), evalBV(e->x[1], c), e->x[0]->w); break;
    case K_ITE: r = evalBV(e->x[0], c) ? evalBV(e->x[1], c) : evalBV(e->x[2], c); break;
    case K_CONCAT: r = (evalBV(e->x[0], c) << e->x[1]->w) | evalBV(e->x[1], c); break;
    case K_EXTRACT: r = (evalBV(e->x[0], c) >> (int)e->a) & maskW(e->w); break;
    case K_ZEXT: r = evalBV(e->x[0], c); break;
    case K_SEXT: r = (u128)sx(evalBV(e->x[0], c), e->x[0]->w) & maskW(e->w); break;
    case K_RLT: r = evalR(e->x[0], c) < evalR(e->x[1], c); break;
    case K_RLE: r = evalR(e->x[0], c) <= evalR(e->x[1], c); break;
    case K_REQ: { long double p = evalR(e->x[0], c), q = evalR(e->x[1], c); r = fabsl(p - q) <= 1e-15L * (1 + fabsl(p)); break; }
    case K_RBITS: { long double v = evalR(e->x[0], c); r = e->w == 32 ? b32((float)v) : b64((double)v); break; }
    case K_FUN: r = 0; break;
    default: {
      Expr ca, cb; memset((void*)&ca, 0, sizeof ca); memset((void*)&cb, 0, sizeof cb);
      ca.k = cb.k = K_CONST; ca.w = e->x[0]->w; ca.a = (uint64_t)evalBV(e->x[0], c);
      if (e->x[1]) { cb.w = e->x[1]->w; cb.a = (uint64_t)evalBV(e->x[1], c); }
      uint64_t o = 0;
      if (!fpFold(e->k, e->w, &ca, &cb, e->a, o)) { fprintf(stderr, "evalBV kind %d\n", e->k); abort(); }
      r = o;
    }
  }
  c.mb[e] = r;
  return r;
}
long double evalR(const Expr* e, EvalCtx& c) {
  if (e->k == K_RCONST) return e->r;
  auto it = c.mr.find(e);
  if (it != c.mr.end()) return it->second;
  long double r = 0;
  switch (e->k) {
    case K_RVAR: { auto j = c.as->re.find(e->a); r = j == c.as->re.end() ? 0 : j->second; break; }
    case K_RADD: r = evalR(e->x[0], c) + evalR(e->x[1], c); break;
    case K_RMUL: r = evalR(e->x[0], c) * evalR(e->x[1], c); break;
    case K_RDIV: r = evalR(e->x[0], c) / evalR(e->x[1], c); break;
    case K_RFUN: {
      long double x = evalR(e->x[0], c);
      switch (e->a) {
        case RF_EXP: r = expl(x); break;
        case RF_LOG: r = logl(x); break;
        case RF_SQRT: r = sqrtl(x); break;
        case RF_SIN: r = sinl(x); break;
        case RF_COS: r = cosl(x); break;
        case RF_TANH: r = tanhl(x); break;
        case RF_ERF: r = erfl(x); break;
        case RF_POW: r = powl(x, evalR(e->x[1], c)); break;
        default: r = 0;
      }
      break;
    }
    case K_ROFBV: { u128 v = evalBV(e->x[0], c); r = e->a ? (long double)sx(v, e->x[0]->w) : (long double)v; break; }
    case K_RITE: r = evalBV(e->x[0], c) ? evalR(e->x[1], c) : evalR(e->x[2], c); break;
    default: fprintf(stderr, "evalR kind %d\n", e->k); abort();
  }
  c.mr[e] = r;
  return r;
}

// ---------------------------------------------------------------- rational normal form
// monomial: sorted (atom id, exponent) list; exponent in 1e-9 quanta to keep exact keys for fractional powers
typedef std::vector<std::pair<uint32_t, long long>> Mono;
static const long long Q = 1000000000LL;
typedef std::map<Mono, long double> Poly;
struct Rat { Poly n; std::map<uint32_t, int> d; bool ok = true; };  // d: powers of interned factors (g_factors); monomials live in n, with negative exponents
static const size_t POLY_LIMIT = 60000;

struct Atom { int kind; const Expr* e; Mono m; Poly p; };  // kind 0 = plain expr, 1 = exp(monomial), 2 = log(poly), 3 = sqrt(poly), 4 fun(poly..)
static std::vector<Atom> g_atoms;
static std::map<const Expr*, uint32_t> g_atomOfExpr;
static std::map<Mono, uint32_t> g_expAtom;
static std::map<std::string, uint32_t> g_keyAtom;
static std::unordered_map<const Expr*, Rat*> g_nf;

static uint32_t atomExpr(const Expr* e) {
  auto it = g_atomOfExpr.find(e);
  if (it != g_atomOfExpr.end()) return it->second;
  g_atoms.push_back({0, e, {}, {}});
  return g_atomOfExpr[e] = g_atoms.size() - 1;
}
static uint32_t atomExp(const Mono& m) {
  auto it = g_expAtom.find(m);
  if (it != g_expAtom.end()) return it->second;
  g_atoms.push_back({1, nullptr, m, {}});
  return g_expAtom[m] = g_atoms.size() - 1;
}
static std::string polyKey(const Poly& p) {
  std::string s;
  char b[64];
  for (auto& t : p) {
    snprintf(b, sizeof b, "%.9Lg[", t.second);
    s += b;
    for (auto& f : t.first) { snprintf(b, sizeof b, "%u^%lld,", f.first, f.second); s += b; }
    s += "]";
  }
  return s;
}
static uint32_t atomKey(const std::string& key, int kind, const Poly& p) {
  auto it = g_keyAtom.find(key);
  if (it != g_keyAtom.end()) return it->second;
  g_atoms.push_back({kind, nullptr, {}, p});
  return g_keyAtom[key] = g_atoms.size() - 1;
}
static long double polyScale(const Poly& p) { long double s = 0; for (auto& t : p) s = std::max(s, fabsl(t.second)); return s; }
static void polyClean(Poly& p, long double scale) {
  for (auto it = p.begin(); it != p.end();) if (fabsl(it->second) <= 1e-13L * scale) it = p.erase(it); else ++it;
}
static Poly polyAdd(const Poly& a, const Poly& b, long double f = 1) {
  Poly r = a;
  long double s = std::max(polyScale(a), polyScale(b) * fabsl(f));
  for (auto& t : b) r[t.first] += t.second * f;
  polyClean(r, s);
  return r;
}
static Mono monoMul(const Mono& a, const Mono& b) {
  Mono r;
  size_t i = 0, j = 0;
  while (i < a.size() || j < b.size()) {
    if (j == b.size() || (i < a.size() && a[i].first < b[j].first)) r.push_back(a[i++]);
    else if (i == a.size() || b[j].first < a[i].first) r.push_back(b[j++]);
    else { long long e = a[i].second + b[j].second; if (e) r.push_back({a[i].first, e}); i++; j++; }
  }
  return r;
}
static bool polyMul(const Poly& a, const Poly& b, Poly& out);
static bool monoSqrtReduce(Mono& m, Poly& factor, bool& has) {
  // replace sqrt(p)^2k by p^k
  has = false;
  for (auto& f : m) {
    if (g_atoms[f.first].kind == 3 && f.second >= 2 * Q) {
      long long k = f.second / (2 * Q);
      Poly acc; acc[{}] = 1;
      for (long long i = 0; i < k; i++) { Poly t; if (!polyMul(acc, g_atoms[f.first].p, t)) return false; acc = t; }
      f.second -= k * 2 * Q;
      if (!has) { factor = acc; has = true; } else { Poly t; if (!polyMul(factor, acc, t)) return false; factor = t; }
    }
  }
  if (has) m.erase(std::remove_if(m.begin(), m.end(), [](auto& p) { return p.second == 0; }), m.end());
  return true;
}
static bool polyMul(const Poly& a, const Poly& b, Poly& out) {
  if (a.size() * b.size() > POLY_LIMIT * 8) return false;
  Poly r;
  for (auto& x : a)
    for (auto& y : b) {
      Mono m = monoMul(x.first, y.first);
      long double c = x.second * y.second;
      Poly f; bool has;
      if (!monoSqrtReduce(m, f, has)) return false;
      if (!has) r[m] += c;
      else for (auto& t : f) r[monoMul(m, t.first)] += c * t.second;
      if (r.size() > POLY_LIMIT) return false;
    }
  polyClean(r, polyScale(r));
  out.swap(r);
  return true;
}
static bool polyIsConst(const Poly& p, long double& v) {
  if (p.empty()) { v = 0; return true; }
  if (p.size() == 1 && p.begin()->first.empty()) { v = p.begin()->second; return true; }
  return false;
}
// pull the common monomial out (all atoms, min exponent)
static Mono polyContent(const Poly& p) {
  Mono c; bool first = true;
  for (auto& t : p) {
    if (first) { c = t.first; first = false; continue; }
    Mono r;
    for (auto& f : c) {
      long long e = 0;
      for (auto& g : t.first) if (g.first == f.first) e = g.second;
      long long k = std::min(e, f.second);
      if (f.second < 0 || e < 0) k = std::min(e, f.second);
      if (k) r.push_back({f.first, k});
    }
    for (auto& g : t.first) {  // negative exponents only present in t
      bool in = false; for (auto& f : c) if (f.first == g.first) in = true;
      if (!in && g.second < 0) r.push_back(g);
    }
    std::sort(r.begin(), r.end());
    c = r;
  }
  return c;
}
static Mono monoInv(const Mono& m) { Mono r = m; for (auto& f : r) f.second = -f.second; return r; }
static Poly polyMono(const Poly& p, const Mono& m) { Poly r; for (auto& t : p) r[monoMul(t.first, m)] = t.second; return r; }
static std::vector<Poly> g_factors;
static std::map<std::string, uint32_t> g_factorId;
// p = scale * mono * factor; factor has no monomial content and leading coefficient 1; returns -1 when the factor is 1
static int factorOf(const Poly& p, long double& scale, Mono& mono) {
  mono = polyContent(p);
  Poly f = mono.empty() ? p : polyMono(p, monoInv(mono));
  scale = f.begin()->second;
  for (auto& t : f) t.second /= scale;
  long double v;
  if (polyIsConst(f, v)) return -1;
  std::string k = polyKey(f);
  auto it = g_factorId.find(k);
  if (it != g_factorId.end()) return it->second;
  g_factors.push_back(f);
  return g_factorId[k] = g_factors.size() - 1;
}
static void ratNorm(Rat& r, long long lowest = -Q) {
  if (!r.ok) return;
  if (r.n.empty()) { r.d.clear(); return; }
  std::map<uint32_t, long long> low;  // sqrt(p)^-k below the lowest exponent wanted: divide by p instead
  for (auto& t : r.n) for (auto& f : t.first) if (f.second < lowest && g_atoms[f.first].kind == 3) { auto& l = low[f.first]; l = std::min(l, f.second); }
  for (auto& l : low) {
    long long k = (lowest - l.second + 2 * Q - 1) / (2 * Q);
    Poly n;
    for (auto& t : r.n) {
      Mono m = monoMul(t.first, {{l.first, 2 * k * Q}});
      Poly f; bool has;
      if (!monoSqrtReduce(m, f, has)) { r.ok = false; return; }
      if (!has) n[m] += t.second; else for (auto& u : f) n[monoMul(m, u.first)] += t.second * u.second;
    }
    polyClean(n, polyScale(n));
    r.n.swap(n);
    long double c; Mono m;
    int f = factorOf(g_atoms[l.first].p, c, m);
    Mono mk;
    for (auto& q : m) mk.push_back({q.first, -q.second * k});
    r.n = polyMono(r.n, mk);
    for (auto& t : r.n) t.second /= powl(c, k);
    if (f >= 0) r.d[f] += k;
  }
  if (r.n.empty()) { r.d.clear(); return; }
  if (r.d.empty() || r.n.size() < 2) return;
  long double c; Mono m;
  int f = factorOf(r.n, c, m);
  auto it = f < 0 ? r.d.end() : r.d.find(f);
  if (it != r.d.end()) { r.n.clear(); r.n[m] = c; if (--it->second == 0) r.d.erase(it); }
}
static bool polyMulFactors(Poly& p, const std::map<uint32_t, int>& d) {
  for (auto& f : d) for (int i = 0; i < f.second; i++) { Poly t; if (!polyMul(p, g_factors[f.first], t)) return false; p.swap(t); }
  return true;
}
static Rat ratConst(long double v) { Rat r; if (v != 0) r.n[{}] = v; return r; }
static Rat ratAtom(uint32_t a, long long e = Q) { Rat r; r.n[{{a, e}}] = 1; return r; }
static Rat bad() { Rat r; r.ok = false; return r; }
// multiplies both numerators up to the common denominator
static bool ratCommon(const Rat& a, const Rat& b, Poly& x, Poly& y, std::map<uint32_t, int>& d) {
  std::map<uint32_t, int> ma, mb;
  d = a.d;
  for (auto& f : b.d) { int& k = d[f.first]; k = std::max(k, f.second); }
  for (auto& f : d) {
    auto p = a.d.find(f.first), q = b.d.find(f.first);
    int ka = f.second - (p == a.d.end() ? 0 : p->second), kb = f.second - (q == b.d.end() ? 0 : q->second);
    if (ka) ma[f.first] = ka;
    if (kb) mb[f.first] = kb;
  }
  x = a.n; y = b.n;
  return polyMulFactors(x, ma) && polyMulFactors(y, mb);
}
static Rat ratAdd(const Rat& a, const Rat& b, long double f = 1) {
  if (!a.ok || !b.ok) return bad();
  Rat r;
  Poly x, y;
  if (!ratCommon(a, b, x, y, r.d)) return bad();
  r.n = polyAdd(x, y, f);
  ratNorm(r);
  return r;
}
static Rat ratMul(Rat a, Rat b) {
  if (!a.ok || !b.ok) return bad();
  Rat r;
  auto cancel = [](Rat& x, Rat& y) {  // a whole numerator against a factor of the other denominator
    if (x.n.size() < 2 || y.d.empty()) return;
    long double c; Mono m;
    int f = factorOf(x.n, c, m);
    auto it = f < 0 ? y.d.end() : y.d.find(f);
    if (it != y.d.end()) { x.n.clear(); x.n[m] = c; if (--it->second == 0) y.d.erase(it); }
  };
  cancel(a, b); cancel(b, a);
  if (!polyMul(a.n, b.n, r.n)) return bad();
  r.d = a.d;
  for (auto& f : b.d) r.d[f.first] += f.second;
  ratNorm(r);
  return r;
}
static Rat ratInv(const Rat& a) {
  if (!a.ok || a.n.empty()) return bad();
  Rat r; long double c; Mono m;
  int f = factorOf(a.n, c, m);
  r.n[monoInv(m)] = 1 / c;
  if (f >= 0) r.d[f] = 1;
  // sqrt atoms with negative exponents: sqrt(p)^-2k = p^-k
  if (!polyMulFactors(r.n, a.d)) return bad();
  ratNorm(r);
  return r;
}
static std::string ratKey(const Rat& a) {
  std::string s = polyKey(a.n) + "/";
  for (auto& f : a.d) s += "F" + std::to_string(f.first) + "^" + std::to_string(f.second);
  return s;
}
static bool ratConstDen(const Rat& a) { return a.d.empty(); }
static Rat ratExp(const Rat& a) {
  if (ratConstDen(a)) {
    Rat r = ratConst(1), logs = ratConst(1);
    long double cf = 1;
    Mono m;
    for (auto& t : a.n) {
      long double c = t.second;
      if (t.first.empty()) { cf *= expl(c); continue; }
      if (t.first.size() == 1 && t.first[0].second == Q && g_atoms[t.first[0].first].kind == 2 && fabsl(c - roundl(c)) < 1e-15L && fabsl(c) <= 8) {  // exp(k log p) = p^k
        Rat q; q.n = g_atoms[t.first[0].first].p;
        ratNorm(q);
        if (c < 0) q = ratInv(q);
        for (int i = 0; i < (int)fabsl(roundl(c)); i++) logs = ratMul(logs, q);
        continue;
      }
      long long e = llroundl(c * Q);
      if (!e) continue;
      m.push_back({atomExp(t.first), e});
    }
    std::sort(m.begin(), m.end());
    r.n.clear(); r.n[m] = cf;
    ratNorm(r);
    return ratMul(r, logs);
  }
  uint32_t at = atomKey("exp:" + ratKey(a), 4, {});
  return ratAtom(at);
}
static const Rat* nf(const Expr* e);
static Rat ratLogPoly(Poly p) {
  // log(c * M * P) = log c + log M + log P   (M: exp atoms only)
  Rat r = ratConst(0);
  Mono c = polyContent(p), ce;
  for (auto& f : c) if (g_atoms[f.first].kind == 1) ce.push_back(f);
  if (!ce.empty()) {
    p = polyMono(p, monoInv(ce));
    for (auto& f : ce) { Rat t; t.n[g_atoms[f.first].m] = (long double)f.second / Q; r = ratAdd(r, t); }
  }
  if (p.empty()) return bad();
  long double l = p.begin()->second;
  if (l < 0) return bad();
  if (l != 1) { for (auto& t : p) t.second /= l; r = ratAdd(r, ratConst(logl(l))); }
  long double v;
  if (polyIsConst(p, v)) return r;
  return ratAdd(r, ratAtom(atomKey("log:" + polyKey(p), 2, p)));
}
static Rat nfCompute(const Expr* e) {
  switch (e->k) {
    case K_RCONST: if (!std::isfinite((double)e->r) && !std::isfinite(e->r)) return bad(); return ratConst(e->r);
    case K_RADD: case K_RMUL: case K_RDIV: {
      const Rat *a = nf(e->x[0]), *b = nf(e->x[1]);
      if (!a->ok || !b->ok) return bad();
      if (e->k == K_RADD) return ratAdd(*a, *b);
      if (e->k == K_RMUL) return ratMul(*a, *b);
      Rat bi = ratInv(*b);
      if (!bi.ok) return bad();
      return ratMul(*a, bi);
    }
    case K_RFUN: {
      const Rat* a = nf(e->x[0]);
      if (!a->ok) return bad();
      switch (e->a) {
        case RF_EXP: return ratExp(*a);
        case RF_LOG: {
          Rat p = ratLogPoly(a->n);
          for (auto& f : a->d) if (p.ok) { Rat q = ratLogPoly(g_factors[f.first]); p = q.ok ? ratAdd(p, q, -f.second) : bad(); }
          if (p.ok) return p;
          break;
        }
        case RF_TANH: {  // (E-1)/(E+1), E = exp(2t)
          Rat t2 = ratMul(*a, ratConst(2)), E = ratExp(t2);
          Rat d = ratInv(ratAdd(E, ratConst(1)));
          if (!d.ok) return bad();
          return ratMul(ratAdd(E, ratConst(-1)), d);
        }
        case RF_SQRT: {
          // sqrt(n/d) = sqrt(n*d)/d ; pull out the positive constant scale
          Poly p = a->n;
          if (!polyMulFactors(p, a->d)) return bad();
          if (p.empty()) return ratConst(0);
          long double l = fabsl(p.begin()->second);
          for (auto& t : p) t.second /= l;
          Rat r = ratAtom(atomKey("sqrt:" + polyKey(p), 3, p));
          r = ratMul(r, ratConst(sqrtl(l)));
          for (auto& f : a->d) r.d[f.first] += f.second;
          ratNorm(r);
          return r;
        }
        default: break;
      }
      std::string key = "fun" + std::to_string(e->a) + ":" + ratKey(*a);
      if (e->x[1]) { const Rat* b = nf(e->x[1]); if (!b->ok) return bad(); key += "," + ratKey(*b); }
      return ratAtom(atomKey(key, 4, {}));
    }
    default: return ratAtom(atomExpr(e));
  }
}
static const Rat* nf(const Expr* e) {
  auto it = g_nf.find(e);
  if (it != g_nf.end()) return it->second;
  Rat* r = new Rat(nfCompute(e));
  g_nf[e] = r;
  return r;
}
static int ratEqual(const Rat& x, const Rat& y) {
  Poly p, q;
  std::map<uint32_t, int> cd;
  if (!x.ok || !y.ok || !ratCommon(x, y, p, q, cd)) return -1;
  long double s = std::max(polyScale(p), polyScale(q));
  Poly d = polyAdd(p, q, -1);
  for (auto& t : d) if (fabsl(t.second) > 2e-7L * s) return 0;
  return 1;
}
int nfEqual(const Expr* a, const Expr* b) {
  if (a == b) return 1;
  const Rat *x = nf(a), *y = nf(b);
  int r = ratEqual(*x, *y);
  if (r != 0) return r;
  Rat u = *x, v = *y;
  ratNorm(u, 0); ratNorm(v, 0);
  r = ratEqual(u, v);
  if (r != 1 && getenv("SYMX_NF")) {
    auto show = [](const Rat& a) { std::string t; for (auto& x : a.n) { char b[64]; snprintf(b, sizeof b, " %+.6Lg", x.second); t += b; for (auto& f : x.first) { const Atom& A = g_atoms[f.first]; snprintf(b, sizeof b, "*%s#%u^%g", A.kind == 1 ? "exp" : A.kind == 2 ? "log" : A.kind == 3 ? "sqrt" : A.kind == 4 ? "fun" : exprStr(A.e, 1).c_str(), f.first, (double)f.second / Q); t += b; } } t += " /"; for (auto& f : a.d) { t += " F" + std::to_string(f.first) + "^" + std::to_string(f.second) + "{" + polyKey(g_factors[f.first]) + "}"; } return t; };
    fprintf(stderr, "nf differs:\n  %s\n  %s\n", show(u).c_str(), show(v).c_str());
  }
  return r;
}
bool nfConst(const Expr* a, long double& v) {
  if (a->k == K_RCONST) { v = a->r; return true; }
  const Rat* x = nf(a);
  if (!x->ok) return false;
  long double n;
  if (x->d.empty() && polyIsConst(x->n, n)) { v = n; return true; }
  return false;
}

std::string exprStr(const Expr* e, int depth) {
  char b[80];
  if (e->k == K_CONST) { snprintf(b, sizeof b, "0x%llx:%d", (unsigned long long)e->a, e->w); return b; }
  if (e->k == K_RCONST) { snprintf(b, sizeof b, "%Lg", e->r); return b; }
  if (e->k == K_VAR || e->k == K_RVAR) return g_vars[e->a].name;
  if (depth <= 0) return "...";
  std::string s = "(";
  s += kindNames[e->k];
  if (e->k == K_EXTRACT || e->k == K_RFUN || e->k == K_FUN) { snprintf(b, sizeof b, "[%llu:%d]", (unsigned long long)e->a, e->w); s += b; }
  for (int i = 0; i < e->n; i++) { s += " "; s += exprStr(e->x[i], depth - 1); }
  return s + ")";
}
bool exprRange(const Expr* e, unsigned __int128& lo, unsigned __int128& hi) { return ivl(e, lo, hi); }
void collectVars(const Expr* e, std::vector<uint64_t>& out) {
  std::unordered_set<const Expr*> seen;
  std::vector<const Expr*> st{e};
  while (!st.empty()) {
    const Expr* x = st.back(); st.pop_back();
    if (!seen.insert(x).second) continue;
    if (x->k == K_VAR || x->k == K_RVAR) out.push_back(x->a);
    for (int i = 0; i < x->n; i++) st.push_back(x->x[i]);
  }
  std::sort(out.begin(), out.end());
  out.erase(std::unique(out.begin(), out.end()), out.end());
}
