#pragma once
#include "cuda_fp16.h"
enum cublasStatus_t { CUBLAS_STATUS_SUCCESS = 0, CUBLAS_STATUS_NOT_INITIALIZED = 1, CUBLAS_STATUS_ALLOC_FAILED = 3, CUBLAS_STATUS_INVALID_VALUE = 7, CUBLAS_STATUS_ARCH_MISMATCH = 8, CUBLAS_STATUS_MAPPING_ERROR = 11, CUBLAS_STATUS_EXECUTION_FAILED = 13, CUBLAS_STATUS_INTERNAL_ERROR = 14, CUBLAS_STATUS_NOT_SUPPORTED = 15, CUBLAS_STATUS_LICENSE_ERROR = 16 };
enum cublasOperation_t { CUBLAS_OP_N, CUBLAS_OP_T, CUBLAS_OP_C };
enum cublasMath_t { CUBLAS_DEFAULT_MATH = 0, CUBLAS_TENSOR_OP_MATH = 1, CUBLAS_TF32_TENSOR_OP_MATH = 3 };
enum cudaDataType_t { CUDA_R_32F = 0, CUDA_R_64F = 1, CUDA_R_16F = 2, CUDA_R_16BF = 14 };
typedef cudaDataType_t cublasComputeType_t; enum cublasGemmAlgo_t { CUBLAS_GEMM_DEFAULT = -1, CUBLAS_GEMM_DEFAULT_TENSOR_OP = 99 };
struct cublasEmu { cudaStream_t s; }; typedef cublasEmu* cublasHandle_t;
inline cublasStatus_t cublasCreate(cublasHandle_t* h) { *h = new cublasEmu{nullptr}; return CUBLAS_STATUS_SUCCESS; }
inline cublasStatus_t cublasDestroy(cublasHandle_t h) { delete h; return CUBLAS_STATUS_SUCCESS; }
inline cublasStatus_t cublasSetStream(cublasHandle_t h, cudaStream_t s) { h->s = s; return CUBLAS_STATUS_SUCCESS; }
inline cublasStatus_t cublasSetMathMode(cublasHandle_t, cublasMath_t) { return CUBLAS_STATUS_SUCCESS; }
namespace cuemu {
inline float ld(const void* p, int64_t i, int t) { return t == CUDA_R_32F ? ((const float*)p)[i] : t == CUDA_R_16F ? (float)((const __half*)p)[i] : (float)((const __nv_bfloat16*)p)[i]; }
inline void st(void* p, int64_t i, int t, float v) { if (t == CUDA_R_32F) ((float*)p)[i] = v; else if (t == CUDA_R_16F) ((__half*)p)[i] = __half(v); else ((__nv_bfloat16*)p)[i] = __nv_bfloat16(v); }
// column major, as the library's documentation defines it
inline void gemm(int ta, int tb, int m, int n, int k, float al, const void* a, int At, int lda, const void* b, int Bt, int ldb, float be, void* c, int Ct, int ldc) {
  if (lda < std::max(1, ta ? k : m) || ldb < std::max(1, tb ? n : k) || ldc < std::max(1, m)) bad("a leading dimension is too small");
  for (int j = 0; j < n; j++) for (int i = 0; i < m; i++) {
    float s = 0;
    for (int l = 0; l < k; l++) s += ld(a, ta ? (int64_t)i * lda + l : (int64_t)l * lda + i, At) * ld(b, tb ? (int64_t)l * ldb + j : (int64_t)j * ldb + l, Bt);
    if (be != 0) s = al * s + be * ld(c, (int64_t)j * ldc + i, Ct); else s = al * s;
    st(c, (int64_t)j * ldc + i, Ct, s);
  }
}
inline const void* at(const void* p, int t, int64_t n) { return (const char*)p + n * (t == CUDA_R_32F ? 4 : 2); }
inline cublasStatus_t batch(cublasHandle_t h, int ta, int tb, int m, int n, int k, const void* al, const void* a, int At, int lda, int64_t sa, const void* b, int Bt, int ldb, int64_t sb, const void* be, void* c, int Ct, int ldc, int64_t sc, int cnt) {
  float alpha = *(const float*)al, beta = *(const float*)be;
  if (m < 0 || n < 0 || k < 0 || cnt < 0) return CUBLAS_STATUS_INVALID_VALUE;
  enqueue(h->s, [=] { for (int i = 0; i < cnt; i++) gemm(ta, tb, m, n, k, alpha, at(a, At, i * sa), At, lda, at(b, Bt, i * sb), Bt, ldb, beta, (void*)at(c, Ct, i * sc), Ct, ldc); });
  return CUBLAS_STATUS_SUCCESS;
}
inline cublasStatus_t ptrs(cublasHandle_t h, int ta, int tb, int m, int n, int k, const void* al, const void* const* a, int At, int lda, const void* const* b, int Bt, int ldb, const void* be, void* const* c, int Ct, int ldc, int cnt) {
  float alpha = *(const float*)al, beta = *(const float*)be;
  enqueue(h->s, [=] { for (int i = 0; i < cnt; i++) gemm(ta, tb, m, n, k, alpha, a[i], At, lda, b[i], Bt, ldb, beta, c[i], Ct, ldc); });
  return CUBLAS_STATUS_SUCCESS;
}
}
#define F32 CUDA_R_32F
inline cublasStatus_t cublasSgemm(cublasHandle_t h, cublasOperation_t ta, cublasOperation_t tb, int m, int n, int k, const float* al, const float* a, int lda, const float* b, int ldb, const float* be, float* c, int ldc) { return cuemu::batch(h, ta, tb, m, n, k, al, a, F32, lda, 0, b, F32, ldb, 0, be, c, F32, ldc, 0, 1); }
inline cublasStatus_t cublasGemmEx(cublasHandle_t h, cublasOperation_t ta, cublasOperation_t tb, int m, int n, int k, const void* al, const void* a, cudaDataType_t At, int lda, const void* b, cudaDataType_t Bt, int ldb, const void* be, void* c, cudaDataType_t Ct, int ldc, cublasComputeType_t, cublasGemmAlgo_t) { return cuemu::batch(h, ta, tb, m, n, k, al, a, At, lda, 0, b, Bt, ldb, 0, be, c, Ct, ldc, 0, 1); }
inline cublasStatus_t cublasSgemmStridedBatched(cublasHandle_t h, cublasOperation_t ta, cublasOperation_t tb, int m, int n, int k, const float* al, const float* a, int lda, long long sa, const float* b, int ldb, long long sb, const float* be, float* c, int ldc, long long sc, int cnt) { return cuemu::batch(h, ta, tb, m, n, k, al, a, F32, lda, sa, b, F32, ldb, sb, be, c, F32, ldc, sc, cnt); }
inline cublasStatus_t cublasGemmStridedBatchedEx(cublasHandle_t h, cublasOperation_t ta, cublasOperation_t tb, int m, int n, int k, const void* al, const void* a, cudaDataType_t At, int lda, long long sa, const void* b, cudaDataType_t Bt, int ldb, long long sb, const void* be, void* c, cudaDataType_t Ct, int ldc, long long sc, int cnt, cublasComputeType_t, cublasGemmAlgo_t) { return cuemu::batch(h, ta, tb, m, n, k, al, a, At, lda, sa, b, Bt, ldb, sb, be, c, Ct, ldc, sc, cnt); }
inline cublasStatus_t cublasSgemmBatched(cublasHandle_t h, cublasOperation_t ta, cublasOperation_t tb, int m, int n, int k, const float* al, const float* const a[], int lda, const float* const b[], int ldb, const float* be, float* const c[], int ldc, int cnt) { return cuemu::ptrs(h, ta, tb, m, n, k, al, (const void* const*)a, F32, lda, (const void* const*)b, F32, ldb, be, (void* const*)c, F32, ldc, cnt); }
inline cublasStatus_t cublasGemmBatchedEx(cublasHandle_t h, cublasOperation_t ta, cublasOperation_t tb, int m, int n, int k, const void* al, const void* const a[], cudaDataType_t At, int lda, const void* const b[], cudaDataType_t Bt, int ldb, const void* be, void* const c[], cudaDataType_t Ct, int ldc, int cnt, cublasComputeType_t, cublasGemmAlgo_t) { return cuemu::ptrs(h, ta, tb, m, n, k, al, a, At, lda, b, Bt, ldb, be, c, Ct, ldc, cnt); }
#undef F32
