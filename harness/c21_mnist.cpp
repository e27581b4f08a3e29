#include "common.h"
#include "Data/DatasetMNIST.h"
#include <memory>
using namespace tinytorch::data;
typedef std::vector<uint8_t> Bytes;
static void p32(Bytes& b, uint32_t v) { for (int i = 3; i >= 0; i--) b.push_back((uint8_t)(v >> (8 * i))); }
static void put(const char* n, Bytes b) { b.reserve(1); vfs_put(n, b.data(), b.size()); }
static const char* NI[2] = {"train-images-idx3-ubyte", "t10k-images-idx3-ubyte"};
static const char* NL[2] = {"train-labels-idx1-ubyte", "t10k-labels-idx1-ubyte"};
static std::string dir() { std::string p = vfs_path("train-images-idx3-ubyte"); return p.substr(0, p.size() - strlen("train-images-idx3-ubyte")); }
struct Tag : transforms::Transform { float k; explicit Tag(float f) : k(f) {} Tensor process(Tensor& t) const override { return Tensor::full(t.shape(), k, t.options()) ; } };
HARNESS(wellformed) {
  begin(); int64_t type = pick("type", 0, 1), n = pick("images", 0, 3), h = pick("height", 1, 2), w = pick("width", 1, 3); Bytes I, L; p32(I, 0x803); p32(I, n); p32(I, h); p32(I, w); Bytes px, lb; for (int64_t i = 0; i < n * h * w; i++) px.push_back(sym_u8("pixel")); for (int64_t i = 0; i < n; i++) lb.push_back(sym_u8("label")); I.insert(I.end(), px.begin(), px.end()); p32(L, 0x801); p32(L, n); L.insert(L.end(), lb.begin(), lb.end());
  put(NI[type], I); put(NL[type], L); DatasetMNIST d(dir(), type ? DatasetMNIST::TEST : DatasetMNIST::TRAIN, nullptr); CHECK((int64_t)d.size() == n, "number of samples");
  for (int64_t k = 0; k < n; k++) { auto it = d.getItem(k); CHECK(it.size() == 2, "image and label"); checkLayout(it[0], {1, h, w}, "image shape"); CHECK(it[0].dtype() == DType::Float32, "image type"); for (int64_t i = 0; i < h * w; i++) CHECK(fbits(fp(it[0])[i]) == fbits((float)px[k * h * w + i] / 255.0f), "pixel scaled to [0,1] in file order"); checkLayout(it[1], {}, "label shape"); CHECK(it[1].dtype() == DType::Int64 && it[1].item<int64_t>() == lb[k], "label in file order"); auto again = d.getItem(k); for (int64_t i = 0; i < h * w; i++) CHECK(fbits(fp(again[0])[i]) == fbits(fp(it[0])[i]), "asking again gives the same"); }
  END();
}
// trailing bytes are ignored; label and image counts may differ: the smaller one counts
HARNESS(counts) {
  begin(); int64_t n = pick("images", 0, 3), m = pick("labels", 0, 3), x = pick("extra", 0, 2); Bytes I, L; p32(I, 0x803); p32(I, n); p32(I, 1); p32(I, 2); for (int64_t i = 0; i < 2 * n + x; i++) I.push_back((uint8_t)(10 + i)); p32(L, 0x801); p32(L, m); for (int64_t i = 0; i < m + x; i++) L.push_back((uint8_t)(3 + i)); put(NI[0], I); put(NL[0], L);
  DatasetMNIST d(dir(), DatasetMNIST::TRAIN, nullptr); int64_t k = n < m ? n : m; CHECK((int64_t)d.size() == k, "as many samples as both files hold"); for (int64_t j = 0; j < k; j++) { auto it = d.getItem(j); CHECK(fp(it[0])[0] == (10 + 2 * j) / 255.f && fp(it[0])[1] == (11 + 2 * j) / 255.f, "pixels"); CHECK(it[1].item<int64_t>() == 3 + j, "label"); } END();
}
// transforms are applied to the image, in order, and not to the label; the stored data is not changed by them
HARNESS(transform) {
  beginReal(); float mean = sym_f32("mean"), sd = sym_f32("std"); sym_assume(sd > 0); Bytes I, L; p32(I, 0x803); p32(I, 1); p32(I, 1); p32(I, 2); I.push_back(51); I.push_back(102); p32(L, 0x801); p32(L, 1); L.push_back(4); put(NI[0], I); put(NL[0], L);
  DatasetMNIST d(dir(), DatasetMNIST::TRAIN, std::make_shared<transforms::Normalize>(mean, sd)); for (int r = 0; r < 2; r++) { auto it = d.getItem(0); checkT(it[0], {(51 / 255.f - mean) / sd, (102 / 255.f - mean) / sd}, {1, 1, 2}, "normalized image"); CHECK(it[1].item<int64_t>() == 4, "label"); } END();
}
struct AddK : transforms::Transform { float k; explicit AddK(float f) : k(f) {} Tensor process(Tensor& t) const override { return t + k; } };
struct MulK : transforms::Transform { float k; explicit MulK(float f) : k(f) {} Tensor process(Tensor& t) const override { return t * k; } };
HARNESS(compose) {
  beginReal(); float m = sym_f32("m"), s = sym_f32("s"); Fs v = symFs("x", 2); Tensor t = mk(v, {1, 2}); Fs am, ma, a; for (float x : v) { am.push_back((x + m) * s); ma.push_back(x * s + m); a.push_back(x + m); }
  std::shared_ptr<transforms::Transform> pa = std::make_shared<AddK>(m), pm = std::make_shared<MulK>(s);
  switch (pick("how", 0, 5)) {
    case 0: { transforms::Compose c(AddK{m}, MulK{s}); checkT(c.process(t), am, {1, 2}, "transforms run in order"); break; }
    case 1: { transforms::Compose c(MulK{s}, AddK{m}); checkT(c.process(t), ma, {1, 2}, "transforms run in order"); break; }
    case 2: { transforms::Compose c{pa, pm}; checkT(c.process(t), am, {1, 2}, "transforms run in order"); break; }
    case 3: { transforms::Compose c; c.pushBack(AddK{m}); checkT(c.process(t), a, {1, 2}, "one transform"); const auto& q = pm; c.pushBack(q); checkT(c.process(t), am, {1, 2}, "a later one is added at the end"); checkT(c.process(t), am, {1, 2}, "and again"); break; }
    case 4: { transforms::Compose c(AddK{m}, MulK{s}, AddK{s}); Fs e; for (float x : am) e.push_back(x + s); checkT(c.process(t), e, {1, 2}, "three transforms"); break; }
    default: { transforms::Compose c; checkT(c.process(t), v, {1, 2}, "no transform is the identity"); }
  }
  checkT(t, v, {1, 2}, "the input is unchanged"); END();
}
HARNESS(normalize) { beginReal(); float m1 = sym_f32("m1"), s1 = sym_f32("s1"), m2 = sym_f32("m2"), s2 = sym_f32("s2"); sym_assume(s1 > 0 && s2 > 0); Fs v = symFs("x", 2), e; Tensor t = mk(v, {2}); std::shared_ptr<transforms::Transform> a = std::make_shared<transforms::Normalize>(m1, s1), b = std::make_shared<transforms::Normalize>(m2, s2); for (float x : v) e.push_back(((x - m1) / s1 - m2) / s2); transforms::Compose c{a, b}; checkT(c.process(t), e, {2}, "normalized twice"); checkT(t, v, {2}, "the input is unchanged"); END(); }
// ---- malformed files: any size is allowed to be refused (empty dataset); what is delivered is in the files
static void judge(DatasetMNIST& d, const Bytes& I, const Bytes& L, int64_t h, int64_t w, int64_t n, int64_t m) {
  int64_t hw = h * w, haveI = I.size() < 16 || hw <= 0 ? 0 : ((int64_t)I.size() - 16) / hw, haveL = L.size() < 8 ? 0 : (int64_t)L.size() - 8; if (n < haveI) haveI = n; if (m < haveL) haveL = m; int64_t have = haveI < haveL ? haveI : haveL; if (have < 0) have = 0;
  int64_t k = sym_concretize((int64_t)d.size()); CHECK(k >= 0 && k <= have, "no sample that is not in the files"); if (k < 0 || k > have) return;
  for (int64_t j = 0; j < k; j++) { auto it = d.getItem(j); checkLayout(it[0], {1, h, w}, "image shape"); for (int64_t i = 0; i < hw; i++) CHECK(fbits(fp(it[0])[i]) == fbits((float)I[16 + j * hw + i] / 255.f), "pixels are from the file"); CHECK(it[1].item<int64_t>() == L[8 + j], "labels are from the file"); }
}
HARNESS(truncated) {
  begin(); Bytes I, L; p32(I, 0x803); p32(I, 2); p32(I, 1); p32(I, 2); for (int i = 0; i < 4; i++) I.push_back((uint8_t)(200 + i)); p32(L, 0x801); p32(L, 2); L.push_back(7); L.push_back(8); bool img = pick("file", 0, 1); Bytes& B = img ? I : L; B.resize(pick("length", 0, img ? 19 : 9)); put(NI[0], I); put(NL[0], L); sym_reach("end"); sym_trap_policy(1); DatasetMNIST d(dir(), DatasetMNIST::TRAIN, nullptr); judge(d, I, L, 1, 2, 2, 2); END();
}
HARNESS(magic) {
  begin(); bool img = pick("file", 0, 1); Bytes I, L; uint32_t u = sym_u32("magic"); sym_assume(u != (img ? 0x803u : 0x801u)); p32(I, img ? u : 0x803); p32(I, 1); p32(I, 1); p32(I, 1); I.push_back(9); p32(L, img ? 0x801 : u); p32(L, 1); L.push_back(1); put(NI[0], I); put(NL[0], L); sym_reach("end"); sym_trap_policy(1); DatasetMNIST d(dir(), DatasetMNIST::TRAIN, nullptr); CHECK(d.size() == 0, "a file with another magic number is not read"); END();
}
static void field(int f) {
  Bytes I, L; uint32_t u = sym_u32("field"); p32(I, 0x803); p32(I, f == 0 ? u : 2); p32(I, f == 1 ? u : 1); p32(I, f == 2 ? u : 2); for (int i = 0; i < 4; i++) I.push_back((uint8_t)(200 + i)); p32(L, 0x801); p32(L, f == 3 ? u : 2); L.push_back(7); L.push_back(8); put(NI[0], I); put(NL[0], L); sym_reach("end"); sym_trap_policy(1);
  DatasetMNIST d(dir(), DatasetMNIST::TRAIN, nullptr); if (sym_concretize((int64_t)d.size()) == 0) { END(); return; } int64_t s = (int32_t)sym_concretize(u); judge(d, I, L, f == 1 ? s : 1, f == 2 ? s : 2, f == 0 ? s : 2, f == 3 ? s : 2); END();
}
HARNESS(field_count) { begin(); field(0); }
HARNESS(field_height) { begin(); field(1); }
HARNESS(field_width) { begin(); field(2); }
HARNESS(field_labels) { begin(); field(3); }
// height and width together: their product may overflow or be negative
HARNESS(field_size) {
  begin(); Bytes I, L; static const uint32_t ws[] = {0, 1, 2, 3, 4, 5, 65536, 0x7fffffff, 0x80000000u, 0xffffffffu}; uint32_t h = sym_u32("height"), w = ws[pick("width", 0, 9)]; if (pick("swap", 0, 1)) { uint32_t t = h; h = w; w = t; } p32(I, 0x803); p32(I, 1); p32(I, h); p32(I, w); for (int i = 0; i < 4; i++) I.push_back((uint8_t)(200 + i)); p32(L, 0x801); p32(L, 1); L.push_back(7); put(NI[0], I); put(NL[0], L); sym_reach("end"); sym_trap_policy(1); DatasetMNIST d(dir(), DatasetMNIST::TRAIN, nullptr);
  int64_t H = (int32_t)h, W = (int32_t)w; bool in = H > 0 && W > 0 && H * W <= 4; if (sym_fork(in)) judge(d, I, L, sym_concretize(H), sym_concretize(W), 1, 1); else CHECK(d.size() == 0, "an image larger than the file is not delivered"); END();
}
HARNESS(missing) { begin(); int64_t k = pick("which", 0, 2); Bytes I, L; p32(I, 0x803); p32(I, 1); p32(I, 1); p32(I, 1); I.push_back(9); p32(L, 0x801); p32(L, 1); L.push_back(1); if (k == 1) put(NI[0], I); if (k == 2) put(NL[0], L); DatasetMNIST d(dir(), DatasetMNIST::TRAIN, nullptr); CHECK(d.size() == 0, "no samples without both files"); END(); }
// more and larger images, the real image size among them
HARNESS(wide) {
  begin(); static const int64_t N[] = {3, 300, 70}, H[] = {28, 1, 3}, W[] = {28, 2, 1}; int64_t q = pick("case", 0, 2), type = pick("type", 0, 1), n = N[q], h = H[q], w = W[q]; Bytes I, L, px, lb; p32(I, 0x803); p32(I, n); p32(I, h); p32(I, w); for (int64_t i = 0; i < n * h * w; i++) px.push_back((uint8_t)(i * 131 + i / 256)); for (int64_t i = 0; i < n; i++) lb.push_back((uint8_t)(i * 7)); px[n * h * w - 1] = sym_u8("pixel"); lb[n - 1] = sym_u8("label"); I.insert(I.end(), px.begin(), px.end()); p32(L, 0x801); p32(L, n); L.insert(L.end(), lb.begin(), lb.end());
  put(NI[type], I); put(NL[type], L); DatasetMNIST d(dir(), type ? DatasetMNIST::TEST : DatasetMNIST::TRAIN, nullptr); CHECK((int64_t)d.size() == n, "number of samples");
  for (int64_t k = 0; k < n; k++) { auto it = d.getItem(k); checkLayout(it[0], {1, h, w}, "image shape"); for (int64_t i = 0; i < h * w; i++) CHECK(fbits(fp(it[0])[i]) == fbits((float)px[k * h * w + i] / 255.0f), "pixel scaled to [0,1] in file order"); CHECK(it[1].item<int64_t>() == lb[k], "label in file order"); }
  END();
}
// as many samples as the real data set: counts that use two and three bytes
HARNESS(wide_count) {
  begin(); static const int64_t N[] = {255, 256, 40000, 65536}; int64_t n = N[pick("images", 0, TIER == 2 ? 3 : 2)]; Bytes I, L; p32(I, 0x803); p32(I, n); p32(I, 1); p32(I, 1); for (int64_t i = 0; i < n; i++) I.push_back((uint8_t)(i * 3 + i / 256)); p32(L, 0x801); p32(L, n); for (int64_t i = 0; i < n; i++) L.push_back((uint8_t)(i % 10)); uint8_t px = sym_u8("pixel"); I[16 + n - 1] = px;
  put(NI[0], I); put(NL[0], L); DatasetMNIST d(dir(), DatasetMNIST::TRAIN, nullptr); CHECK((int64_t)d.size() == n, "number of samples"); if ((int64_t)d.size() != n) { END(); return; } for (int64_t k : {(int64_t)0, n / 2, n - 1}) { auto it = d.getItem(k); CHECK(fbits(fp(it[0])[0]) == fbits((float)I[16 + k] / 255.f), "pixel"); CHECK(it[1].item<int64_t>() == k % 10, "label"); } END();
}
// one dimension of the image beyond one byte
HARNESS(wide_image) {
  begin(); bool tall = pick("tall", 0, 1); int64_t n = 2, h = tall ? 33000 : 1, w = tall ? 1 : 33000; Bytes I, L; p32(I, 0x803); p32(I, n); p32(I, h); p32(I, w); for (int64_t i = 0; i < n * h * w; i++) I.push_back((uint8_t)(i * 3 + i / 256)); p32(L, 0x801); p32(L, n); L.push_back(1); L.push_back(2); put(NI[0], I); put(NL[0], L); DatasetMNIST d(dir(), DatasetMNIST::TRAIN, nullptr); CHECK((int64_t)d.size() == n, "number of samples"); if ((int64_t)d.size() != n) { END(); return; } auto it = d.getItem(1); checkLayout(it[0], {1, h, w}, "image shape"); bool ok = true; for (int64_t i = 0; i < h * w; i += 997) ok = ok && fbits(fp(it[0])[i]) == fbits((float)I[16 + h * w + i] / 255.f); CHECK(ok, "pixels"); END();
}
