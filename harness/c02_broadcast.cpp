#include "common.h"
#include "Tensor/TensorIterator.h"
using namespace tinytorch;
// right-aligned broadcast of two shapes; false when incompatible
static bool bc(const Sh& a, const Sh& b, Sh& r) {
  size_t n = std::max(a.size(), b.size()); r.assign(n, 1);
  for (size_t i = 0; i < n; i++) {
    int64_t x = i + a.size() < n ? 1 : a[i + a.size() - n], y = i + b.size() < n ? 1 : b[i + b.size() - n];
    if (x != y && x != 1 && y != 1) return false;
    r[i] = x == 1 ? y : x;
  }
  return true;
}
static int64_t src(const Sh& s, const Sh& c) {
  int64_t o = 0; size_t d = c.size() - s.size();
  for (size_t i = 0; i < s.size(); i++) o = o * s[i] + (s[i] == 1 ? 0 : c[i + d]);
  return o;
}
static Sh pickS(const char* n, int maxRank, int64_t lo, int64_t hi) {
  int r = (int)pick("rank", 0, maxRank); Sh s; for (int i = 0; i < r; i++) s.push_back(pick(n, lo, hi)); return s;
}
enum { NKIND = 7 };
static void two(const Sh& a, const Sh& b, int kind) {
  Fs va = symFs("a", prod(a)), vb = symFs("b", prod(b));
  Tensor x = mk(va, a), y = mk(vb, b);
  Sh want; bool ok = bc(a, b, want);
  float al = 0.5f;
  sym_trap_policy(ok ? 0 : 1);
  Tensor r;
  if (kind == 0) r = op::sub(x, y, 1);
  else if (kind == 1) r = op::div(x, y);
  else if (kind == 2) r = op::lt(x, y);
  else if (kind == 3) r = x - y;
  else if (kind == 4) r = op::maximum(x, y);
  else if (kind == 5) r = op::add(x, y, Scalar(al));
  else { r = Tensor::empty(ok ? want : a); op::mulOut(r, x, y); }
  if (!ok) { CHECK(false, "incompatible shapes must be rejected"); return; }
  checkLayout(r, want, "broadcast result shape");
  if (kind == 2) CHECK(r.dtype() == DType::Bool, "comparison result is Bool");
  forCoord(want, [&](int64_t i, const Sh& c) {
    float p = va[src(a, c)], q = vb[src(b, c)];
    if (kind == 2) CHECK((r.dataPtr<uint8_t>()[i] != 0) == (p < q), "broadcast element (comparison)");
    else {
      float w = kind == 1 ? p / q : kind == 4 ? (p > q ? p : q) : kind == 5 ? p + al * q : kind == 6 ? p * q : p - q;
      if (kind == 4) { sym_assume(p == p && q == q); CHECK(fp(r)[i] == w, "broadcast element (maximum)"); } else CHECKF(fp(r)[i], w, "broadcast element");
    }
  });
  checkT(x, va, a, "left operand unchanged"); checkT(y, vb, b, "right operand unchanged");
  END();
}
// every pair of shapes, one operation
HARNESS(pairs_sub) { beginReal(); Sh a = pickS("a", 3, 1, 2), b = pickS("b", 3, 1, 2); two(a, b, 0); }
HARNESS(pairs_size3) { beginReal(); Sh a = pickS("a", 2, 0, 3), b = pickS("b", 2, 0, 3); two(a, b, 3); }
HARNESS(kinds) { beginReal(); int k = (int)pick("kind", 0, NKIND - 1); Sh a = pickS("a", 2, 1, 2), b = pickS("b", 2, 1, 2); two(a, b, k); }
static void rank4(int mask, int mb) {
  Sh a, b; int64_t d[4] = {2, 3, 2, 2};
  for (int i = 0; i < 4; i++) { a.push_back(mask >> i & 1 ? d[i] : 1); b.push_back(mb >> i & 1 ? d[i] : 1); }
  int64_t drop = pick("drop", 0, 4), side = pick("side", 0, 1);
  if (side) b.erase(b.begin(), b.begin() + drop); else a.erase(a.begin(), a.begin() + drop);
  two(a, b, 0);
}
HARNESS(rank4) { beginReal(); int ma = (int)pick("ma", 0, 15), mb = (int)pick("mb", 0, 15); if (TIER == 1) sym_assume((ma & mb) == 0 || (ma | mb) == 15); rank4(ma, mb); }
HARNESS(high_rank) {
  // ranks 5..8 cross the inline capacity of the shape vectors
  beginReal();
  int r = (int)pick("rank", 5, 8); Sh a(r, 1), b(r, 1);
  int i = (int)pick("i", 0, r - 1), j = (int)pick("j", 0, r - 1);
  a[i] = 2; b[j] = 3; if (i == j) b[j] = 2;
  if (i != r - 1 && j != r - 1) a[r - 1] = b[r - 1] = 2;
  two(a, b, 0);
}
HARNESS(t_pairs3) { beginReal(); Sh a = pickS("a", 3, 0, 3), b = pickS("b", 3, 0, 3); two(a, b, (int)0); }
// in-place forms keep the shape of the updated tensor
HARNESS(inplace) {
  beginReal();
  Sh a = pickS("a", 2, 1, 2), b = pickS("b", 3, 1, 2);
  int k = (int)pick("kind", 0, 4);
  Fs va = symFs("a", prod(a)), vb = symFs("b", prod(b));
  Tensor x = mk(va, a), y = mk(vb, b);
  Sh want; bool ok = bc(a, b, want) && want == a;
  if (k == 4 && bc(a, b, want)) ok = true;   // x -= y may grow x through reassignment
  sym_trap_policy(ok ? 0 : 1);
  if (k == 0) op::subInplace(x, y, 1); else if (k == 1) op::divInplace(x, y); else if (k == 2) op::mulInplace(x, y); else if (k == 3) op::addInplace(x, y, 1); else x -= y;
  if (!ok) { CHECK(false, "in-place form must not change the shape"); return; }
  checkLayout(x, want, "shape after in-place operation");
  forCoord(want, [&](int64_t i, const Sh& c) {
    float p = va[src(a, c)], q = vb[src(b, c)];
    CHECKF(fp(x)[i], k == 1 ? p / q : k == 2 ? p * q : k == 3 ? p + q : p - q, "in-place broadcast element");
  });
  checkT(y, vb, b, "right operand unchanged");
  END();
}
// three operands
HARNESS(ternary) {
  beginReal();
  Sh a = pickS("a", 2, 1, 2), b = pickS("b", 2, 1, 2), c = pickS("c", 2, 1, 2);
  Fs va = symFs("a", prod(a)), vb = symFs("b", prod(b)), vc = symFs("c", prod(c));
  Tensor x = mk(va, a), y = mk(vb, b), z = mk(vc, c);
  Sh ab, want; bool ok = bc(a, b, ab) && bc(ab, c, want);
  sym_trap_policy(ok ? 0 : 1);
  Tensor r = op::addcmul(x, y, z, Scalar(1.f));
  if (!ok) { CHECK(false, "incompatible shapes must be rejected"); return; }
  checkLayout(r, want, "three-operand broadcast shape");
  forCoord(want, [&](int64_t i, const Sh& q) { CHECKF(fp(r)[i], va[src(a, q)] + 1.f * vb[src(b, q)] * vc[src(c, q)], "three-operand broadcast element"); });
  END();
}
// shape inference for symbolic sizes (no element is touched)
HARNESS(symbolic_sizes) {
  begin();
  int ra = (int)pick("ra", 0, 4), rb = (int)pick("rb", 0, 4);
  Sh a, b; for (int i = 0; i < ra; i++) a.push_back(sym_i64("a", 0, 1000000)); for (int i = 0; i < rb; i++) b.push_back(sym_i64("b", 0, 1000000));
  SmallVector<IntArrayView> v; v.pushBack(IntArrayView(a)); v.pushBack(IntArrayView(b));
  int n = std::max(ra, rb); SizeVector r;
  bool got = TensorIteratorBase::broadcastShape(r, v, n);
  bool ok = true; 
  for (int i = 0; i < n; i++) {
    int64_t x = i + ra < n ? 1 : a[i + ra - n], y = i + rb < n ? 1 : b[i + rb - n];
    bool c = (x == y) | (x == 1) | (y == 1);
    ok &= c;
  }
  CHECK(got == ok, "shapes are accepted exactly when broadcastable");
  if (got) for (int i = 0; i < n; i++) {
    int64_t x = i + ra < n ? 1 : a[i + ra - n], y = i + rb < n ? 1 : b[i + rb - n];
    CHECK(r[i] == (int64_t)sym_ite64(x == 1, y, x), "broadcast size");
  }
  END();
}
// element counts past unrolled or blocked loops
HARNESS(wide) {
  beginReal();
  static const Sh A[] = {{33, 1}, {5, 65}, {300}, {3, 1, 40}, {17, 19}, {2, 1, 3, 1, 11}, {1}, {1, 130}}, B[] = {{1, 9}, {65}, {1}, {2, 1}, {17, 19}, {1, 4, 1, 2, 1}, {131}, {2, 1}};
  int i = (int)pick("shapes", 0, 7); int k = (int)pick("kind", 0, 3); two(A[i], B[i], k == 3 ? 6 : k);
}
HARNESS(wide_inplace) {
  beginReal();
  static const Sh A[] = {{33, 9}, {5, 65}, {300}, {2, 3, 40}, {17, 19}}, B[] = {{1, 9}, {65}, {1}, {3, 1}, {17, 19}};
  int i = (int)pick("shapes", 0, 4), k = (int)pick("kind", 0, 2); const Sh &a = A[i], &b = B[i];
  Fs va = symFs("a", prod(a)), vb = symFs("b", prod(b)); Tensor x = mk(va, a), y = mk(vb, b);
  if (k == 0) op::subInplace(x, y, 1); else if (k == 1) op::mulInplace(x, y); else op::addInplace(x, y, 2);
  checkLayout(x, a, "shape after in-place operation");
  forCoord(a, [&](int64_t j, const Sh& c) { float p = va[j], q = vb[src(b, c)]; CHECKF(fp(x)[j], k == 0 ? p - q : k == 1 ? p * q : p + 2 * q, "in-place broadcast element"); });
  checkT(y, vb, b, "right operand unchanged");
  END();
}
