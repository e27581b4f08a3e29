#include "common.h"
// Symbolic shapes: TensorImpl allocates lazily, so no path is forked per size.
static Sh symShape(const char* n, int rank, int64_t lo, int64_t hi) { Sh s; for (int i = 0; i < rank; i++) s.push_back(sym_i64(n, lo, hi)); return s; }
static void implIs(const TensorImpl& t, const Sh& s, int64_t numel, const char* what) {
  CHECK(t.dim() == (int64_t)s.size(), what);
  CHECK(t.numel() == numel, what);
  Sh st = rowMajor(s);
  for (size_t i = 0; i < s.size(); i++) { CHECK(t.shape()[i] == s[i], what); CHECK(t.strides()[i] == st[i], what); }
  CHECK(t.strides().size() == s.size(), what);
}
#define HI (TIER == 2 ? 12 : 6)
HARNESS(ctor) {
  begin();
  int r = (int)pick("rank", 0, TIER == 2 ? 5 : 4);
  Sh s = symShape("d", r, 0, HI);
  TensorImpl t(s, Options());
  implIs(t, s, prod(s), "constructed shape, strides and element count");
  for (int i = 0; i < r; i++) { CHECK(t.shape(i - r) == s[i], "negative shape index"); CHECK(t.stride(i - r) == rowMajor(s)[i], "negative stride index"); }
  END();
}
// reshape to an arbitrary request
static void reshapeCase(int r, int q) {
  Sh s = symShape("d", r, 0, HI), a = symShape("a", q, -3, TIER == 2 ? 20 : 12);
  int64_t n = prod(s);
  TensorImpl t(s, Options());
  int neg1 = 0, negOther = 0; int64_t known = 1;
  for (auto x : a) { if (x == -1) neg1++; else { if (x < 0) negOther++; known *= x; } }
  Sh want = a; bool ok;
  if (negOther || neg1 > 1) ok = false;
  else if (neg1 == 1) { ok = known != 0 && n % known == 0; if (ok) for (auto& x : want) if (x == -1) x = n / known; }
  else ok = known == n;
  t.reshape_(a);
  implIs(t, ok ? want : s, n, "reshape gives the requested shape, or leaves the tensor unchanged");
  END();
}
HARNESS(reshape0) { begin(); reshapeCase((int)pick("rank", 0, 4), 0); }
HARNESS(reshape1) { begin(); reshapeCase((int)pick("rank", 0, 3), 1); }
HARNESS(reshape2) { begin(); reshapeCase((int)pick("rank", 0, 3), 2); }
HARNESS(reshape3) { begin(); reshapeCase((int)pick("rank", 0, 2), 3); }
HARNESS(t_reshape33) { begin(); reshapeCase(3, 3); }
HARNESS(t_reshape4) { begin(); reshapeCase((int)pick("rank", 1, 2), 4); }
HARNESS(flatten) {
  begin();
  int r = (int)pick("rank", 0, TIER == 2 ? 5 : 4);
  Sh s = symShape("d", r, 0, HI);
  TensorImpl t(s, Options());
  int64_t a = pick("start", -r - 2, r + 1), b = pick("end", -r - 2, r + 1);
  int64_t x = a < 0 ? a + r : a, y = b < 0 ? b + r : b;
  t.flatten_(a, b);
  bool ok = r > 0 ? (x >= 0 && x < r && y >= 0 && y < r && x <= y) : (a >= -1 && a <= 0 && b >= -1 && b <= 0);
  Sh want;
  if (!ok) want = s;
  else if (r == 0) want = {1};
  else { for (int i = 0; i < x; i++) want.push_back(s[i]); want.push_back(prod(s, x, y + 1)); for (int i = y + 1; i < r; i++) want.push_back(s[i]); }
  implIs(t, want, prod(s), "flatten merges exactly the named dimensions");
  END();
}
HARNESS(unflatten) {
  begin();
  int r = (int)pick("rank", 1, 3), q = (int)pick("parts", 1, 3);
  Sh s = symShape("d", r, 0, HI), a = symShape("a", q, -2, 8);
  TensorImpl t(s, Options());
  int64_t d = pick("dim", -r - 1, r), dd = d < 0 ? d + r : d;
  t.unflatten_(d, a);
  bool ok = dd >= 0 && dd < r; Sh want = s;
  if (ok) {
    int neg1 = 0, neg = 0; int64_t known = 1;
    for (auto v : a) { if (v == -1) neg1++; else { if (v < 0) neg++; known *= v; } }
    if (neg || neg1 > 1) ok = false;
    else if (neg1 == 1) ok = known != 0 && s[dd] % known == 0;
    else ok = known == s[dd];
    if (ok) {
      want.clear();
      for (int i = 0; i < dd; i++) want.push_back(s[i]);
      for (auto v : a) want.push_back(v == -1 ? s[dd] / known : v);
      for (int i = dd + 1; i < r; i++) want.push_back(s[i]);
    }
  }
  implIs(t, want, prod(s), "unflatten splits exactly the named dimension");
  END();
}
HARNESS(squeeze_one) {
  begin();
  int r = (int)pick("rank", 0, 4);
  Sh s = symShape("d", r, 0, HI);
  TensorImpl t(s, Options());
  int64_t d = pick("dim", -r - 2, r + 1), dd = d < 0 ? d + r : d;
  t.squeeze_(d);
  Sh want;
  for (int i = 0; i < r; i++) if (!(i == dd && s[i] == 1)) want.push_back(s[i]);
  implIs(t, want, prod(s), "squeeze removes exactly the named dimension when its size is 1");
  END();
}
HARNESS(squeeze_many) {
  begin();
  int r = (int)pick("rank", 0, 4), q = (int)pick("ndims", 0, 2);
  Sh s = symShape("d", r, 0, HI), ds;
  for (int i = 0; i < q; i++) ds.push_back(sym_i64("dim", -r, r > 0 ? r - 1 : 0));
  TensorImpl t(s, Options());
  t.squeeze_(IntArrayView(ds));
  Sh want;
  for (int i = 0; i < r; i++) { bool named = q == 0; for (auto d : ds) named |= d == i || d + r == i; if (!(named && s[i] == 1)) want.push_back(s[i]); }
  implIs(t, want, prod(s), "squeeze removes exactly the named size-1 dimensions (all when none is named)");
  END();
}
HARNESS(unsqueeze) {
  begin();
  int r = (int)pick("rank", 0, 4);
  Sh s = symShape("d", r, 0, HI);
  TensorImpl t(s, Options());
  int64_t d = sym_i64("dim", -r - 3, r + 2), dd = d < 0 ? d + r + 1 : d;
  t.unsqueeze_(d);
  Sh want = s;
  for (int i = 0; i <= r; i++) if (dd == i) { want.insert(want.begin() + i, 1); break; }
  implIs(t, want, prod(s), "unsqueeze inserts a size-1 dimension at the named place");
  END();
}
// the public forms: shape, strides, order of the values, source unchanged, in-place equals copying form
static void publicForms(const Tensor& x, const Sh& s, const Fs& v, int which) {
  Tensor y, z = x.clone(); Sh want; const int r = (int)s.size();
  if (which == 0) { Sh a = {prod(s), 1}; want = a; y = x.reshape(a); z.reshape_(a); }
  else if (which == 1) { Sh a = {1, -1}; want = {1, prod(s)}; y = x.view(a); z.reshape_(a); }
  else if (which == 2) { want = {prod(s)}; y = x.flatten(); z.flatten_(); }
  else if (which == 3) {
    int64_t b = r ? pick("start", 0, r - 1) : 0, e = r ? pick("end", b, r - 1) : 0;
    for (int i = 0; i < b; i++) want.push_back(s[i]); want.push_back(r ? prod(s, b, e + 1) : 1); for (int i = (int)e + 1; i < r; i++) want.push_back(s[i]);
    y = x.flatten(b, e); z.flatten_(b, e);
  } else if (which == 4) {
    if (!r) { END(); return; }
    int64_t d = pick("dim", -r, r - 1), dd = d < 0 ? d + r : d; Sh parts = {1, -1};
    for (int i = 0; i < dd; i++) want.push_back(s[i]); want.push_back(1); want.push_back(s[dd]); for (int i = (int)dd + 1; i < r; i++) want.push_back(s[i]);
    y = x.unflatten(d, parts); z.unflatten_(d, parts);
  } else if (which == 5) {
    int64_t d = r ? pick("dim", -r, r - 1) : -1, dd = d < 0 ? d + r : d;
    for (int i = 0; i < r; i++) if (!(i == dd && s[i] == 1)) want.push_back(s[i]);
    y = x.squeeze(d); z.squeeze_(d);
  } else if (which == 6) {
    int64_t d = pick("dim", -r - 1, r), dd = d < 0 ? d + r + 1 : d;
    want = s; want.insert(want.begin() + dd, 1);
    y = x.unsqueeze(d); z.unsqueeze_(d);
  } else if (which == 7) {
    Sh none; for (auto d : s) if (d != 1) want.push_back(d);
    y = x.squeeze(IntArrayView(none)); z.squeeze_(IntArrayView(none));
  } else { want = Sh(); if (prod(s) != 1) want = s; Sh a; y = x.reshape(a); z.reshape_(a); }
  checkT(y, v, want, "copying form: shape, strides, values in order");
  checkT(z, v, want, "in-place form: shape, strides, values in order");
  checkT(x, v, s, "source unchanged");
  y.fill_(7.f);
  checkVals(x, v, "writing the result leaves the source alone");
  END();
}
HARNESS(public_forms) {
  begin();
  Sh s = pickShape("d", 0, TIER == 2 ? 4 : 3, 1, TIER == 2 ? 3 : 2, 24);
  Fs v = symFs("v", prod(s));
  publicForms(mk(v, s), s, v, (int)pick("op", 0, 8));
}
// sizes past any small-integer width, and element counts past unrolled or blocked loops
HARNESS(huge_sizes) {
  begin();
  static const int64_t D[5] = {65536, 70000, 2147483647ll, 4294967296ll, 3};
  int64_t a = D[pick("a", 0, 4)], b = D[pick("b", 0, 4)];
  if (a > 1000000000 && b > 1000000000) b = 3;
  TensorImpl t(Sh{a, b, 2}, Options()); implIs(t, {a, b, 2}, a * b * 2, "huge shape");
  t.flatten_(1, 2); implIs(t, {a, 2 * b}, a * b * 2, "flatten of a huge shape");
  t.reshape_(Sh{2, -1}); implIs(t, {2, a * b}, a * b * 2, "inferred size of a huge shape");
  t.unflatten_(1, Sh{a, -1}); implIs(t, {2, a, b}, a * b * 2, "unflatten of a huge shape");
  t.unsqueeze_(-1); implIs(t, {2, a, b, 1}, a * b * 2, "unsqueeze of a huge shape");
  t.squeeze_(IntArrayView{-1}); implIs(t, {2, a, b}, a * b * 2, "squeeze of a huge shape");
  END();
}
HARNESS(wide) {
  begin();
  static const int64_t R[4] = {33, 65, 130, 300};
  int64_t m = R[pick("m", 0, TIER == 2 ? 3 : 2)]; bool ip = pick("inplace", 0, 1);
  Fs v = symFs("v", 2 * m); Tensor x = mk(v, {2 * m}), y;
  auto go = [&](Tensor n, const Sh& s, const char* w) { checkT(n, v, s, w); checkT(x, v, {2 * m}, "operand unchanged"); y = n; };
  if (!ip) {
    go(x.reshape({-1, 2}), {m, 2}, "reshape"); go(y.view({2, -1, 1}), {2, m, 1}, "view"); go(y.squeeze(-1), {2, m}, "squeeze"); go(y.unsqueeze(1), {2, 1, m}, "unsqueeze");
    go(y.flatten(0, 1), {2, m}, "flatten"); go(y.flatten(), {2 * m}, "flatten"); go(y.unflatten(0, {1, 2, -1}), {1, 2, m}, "unflatten");
  } else {
    Tensor z = mk(v, {2 * m}); z.reshape_({-1, 2}); go(z, {m, 2}, "reshape_"); z.reshape_({2, -1, 1}); go(z, {2, m, 1}, "reshape_"); z.squeeze_(-1); go(z, {2, m}, "squeeze_"); z.unsqueeze_(1); go(z, {2, 1, m}, "unsqueeze_");
    z.flatten_(0, 1); go(z, {2, m}, "flatten_"); z.flatten_(); go(z, {2 * m}, "flatten_"); z.unflatten_(0, {1, 2, -1}); go(z, {1, 2, m}, "unflatten_");
  }
  END();
}
