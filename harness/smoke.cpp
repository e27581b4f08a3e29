#include "common.h"
HARNESS(smoke_add) {
  CachedAllocator::setCacheEnabled(false);
  sym_real_mode();
  float a = sym_f32("a"), b = sym_f32("b");
  Tensor x(Array1d<float>{a, b});
  Tensor y = x + x * x;
  CHECKF(y.dataPtr<float>()[0], a + a * a, "add0");
  CHECKF(y.dataPtr<float>()[1], b * (1 + b), "add1");
  sym_reach("end");
}
HARNESS(smoke_bad) {
  CachedAllocator::setCacheEnabled(false);
  int64_t n = sym_i64("n", 1, 4);
  int64_t c = sym_concretize(n);
  Tensor x = Tensor::ones({c, 2});
  int64_t k = sym_i64("k", 0, 6);
  CHECK(x.dataPtr<float>()[k] == 1.f, "k ok");
  CHECK(k != 5, "k5");
  sym_reach("end");
}
HARNESS(smoke_matmul) {
  CachedAllocator::setCacheEnabled(false);
  sym_real_mode();
  float v[12]; for (auto& q : v) q = sym_f32("v");
  Tensor a(Array1d<float>(v, v + 6)), b(Array1d<float>(v + 6, v + 12));
  Tensor c = a.reshape({2, 3}).matmul(b.reshape({3, 2}));
  for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) { float s = 0; for (int k = 0; k < 3; k++) s += v[i * 3 + k] * v[6 + k * 2 + j]; CHECKF(c.dataPtr<float>()[i * 2 + j], s, "mm"); }
  sym_reach("end");
}
