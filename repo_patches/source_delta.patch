From 580821c60962781f8ca2ab0941e5aba860c4f3c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:26 +0000
Subject: [PATCH 01/78] fix: reject negative sizes other than -1 in reshape

---
 src/Tensor/TensorImpl.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/Tensor/TensorImpl.cpp b/src/Tensor/TensorImpl.cpp
index b2ea842..cf408df 100644
--- a/src/Tensor/TensorImpl.cpp
+++ b/src/Tensor/TensorImpl.cpp
@@ -66,6 +66,10 @@ void TensorImpl::reshape_(const IntArrayView shape) {
       inferredIdx = static_cast<int64_t>(i);
       retShape[i] = 0;
     } else {
+      if (shape[i] < 0) {
+        LOGE("Invalid shape: negative dimension");
+        return;
+      }
       cnt *= shape[i];
       retShape[i] = shape[i];
     }
-- 
2.43.0


From 2c6599d34015644967b778a90e5fb7bb7d2f6336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:26 +0000
Subject: [PATCH 02/78] fix: count negative flatten dimensions from the end and
 reject invalid ranges

---
 src/Tensor/TensorImpl.cpp | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/src/Tensor/TensorImpl.cpp b/src/Tensor/TensorImpl.cpp
index cf408df..be84443 100644
--- a/src/Tensor/TensorImpl.cpp
+++ b/src/Tensor/TensorImpl.cpp
@@ -95,14 +95,28 @@ void TensorImpl::reshape_(const IntArrayView shape) {
 }
 
 void TensorImpl::flatten_(int64_t startDim, int64_t endDim) {
+  // a scalar is flattened like a tensor with one dimension
+  const int64_t ndim = dim() > 0 ? dim() : 1;
+  if (startDim < 0) {
+    startDim += ndim;
+  }
+  if (endDim < 0) {
+    endDim += ndim;
+  }
+  if (startDim < 0 || endDim >= ndim || startDim > endDim) {
+    LOGE("Invalid dim");
+    return;
+  }
+  if (isScalar()) {
+    reshape_({1});
+    return;
+  }
+
   SizeVector retShape;
   for (int64_t i = 0; i < startDim; i++) {
     retShape.pushBack(shape_[i]);
   }
   int64_t flattenDims = 1;
-  if (endDim < 0) {
-    endDim = dim() - 1;
-  }
   for (int64_t i = startDim; i <= endDim; i++) {
     flattenDims *= shape_[i];
   }
-- 
2.43.0


From f34b5a33b7f06319fc903a74e9f67e5c93dfeff0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:26 +0000
Subject: [PATCH 03/78] fix: reject invalid dimension and several inferred
 sizes in unflatten

---
 src/Tensor/TensorImpl.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/Tensor/TensorImpl.cpp b/src/Tensor/TensorImpl.cpp
index be84443..120cf42 100644
--- a/src/Tensor/TensorImpl.cpp
+++ b/src/Tensor/TensorImpl.cpp
@@ -132,6 +132,10 @@ void TensorImpl::unflatten_(int64_t d, const IntArrayView shape) {
   if (d < 0) {
     d += dim();
   }
+  if (d < 0 || d >= dim()) {
+    LOGE("Invalid dim");
+    return;
+  }
   SizeVector retShape;
   for (int64_t i = 0; i < d; i++) {
     retShape.pushBack(shape_[i]);
@@ -140,6 +144,10 @@ void TensorImpl::unflatten_(int64_t d, const IntArrayView shape) {
   int64_t inferredIdx = -1;
   for (size_t i = 0; i < shape.size(); i++) {
     if (shape[i] == -1) {
+      if (inferredIdx >= 0) {
+        LOGE("Invalid shape: more than one idx to infer");
+        return;
+      }
       inferredIdx = d + static_cast<int64_t>(i);
       retShape.pushBack(0);
     } else {
-- 
2.43.0


From 82913cc6843f079d18469a1a8b93d46510dd3d16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:57 +0000
Subject: [PATCH 04/78] fix: keep size-0 dimensions when broadcasting

---
 src/Tensor/TensorIterator.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/Tensor/TensorIterator.cpp b/src/Tensor/TensorIterator.cpp
index d7d51e7..792f8b3 100644
--- a/src/Tensor/TensorIterator.cpp
+++ b/src/Tensor/TensorIterator.cpp
@@ -81,7 +81,9 @@ bool TensorIteratorBase::broadcastShape(SizeVector& ret, const SmallVector<IntAr
         LOGE("Incompatible shapes for broadcasting");
         return false;
       }
-      dim = std::max(dim, d);
+      if (d != 1) {
+        dim = d;
+      }
     }
     ret[i] = dim;
   }
-- 
2.43.0


From e06df101c9c02e68e93eecb68d0207dd7801ea9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:47 +0000
Subject: [PATCH 05/78] fix: sign of zero is zero on the CPU, as on CUDA

---
 src/Operation/OpElemWiseCpu.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Operation/OpElemWiseCpu.h b/src/Operation/OpElemWiseCpu.h
index b2b1348..ac6bf3f 100644
--- a/src/Operation/OpElemWiseCpu.h
+++ b/src/Operation/OpElemWiseCpu.h
@@ -30,7 +30,7 @@ struct OpCpuNeg {
 struct OpCpuSign {
   template <typename T>
   static T apply(const T& a) {
-    return a > 0 ? 1 : -1;
+    return a > 0 ? 1 : (a < 0 ? -1 : 0);
   }
 };
 
-- 
2.43.0


From 39ba1d19e2f744240f5beaf05b0815e67f9334f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:34 +0000
Subject: [PATCH 06/78] fix: Half and BFloat16 equality compares values (zeros
 of either sign, NaN)

---
 src/Utils/BFloat16.h | 4 ++--
 src/Utils/Half.h     | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/Utils/BFloat16.h b/src/Utils/BFloat16.h
index 8b04b94..1599ae4 100644
--- a/src/Utils/BFloat16.h
+++ b/src/Utils/BFloat16.h
@@ -292,9 +292,9 @@ inline HOST_DEVICE bool operator>=(BFloat16& lhs, BFloat16& rhs) { return float(
 
 inline HOST_DEVICE bool operator<=(BFloat16& lhs, BFloat16& rhs) { return float(lhs) <= float(rhs); }
 
-inline HOST_DEVICE bool operator==(BFloat16& lhs, BFloat16& rhs) { return lhs.x == rhs.x; }
+inline HOST_DEVICE bool operator==(BFloat16& lhs, BFloat16& rhs) { return float(lhs) == float(rhs); }
 
-inline HOST_DEVICE bool operator!=(BFloat16& lhs, BFloat16& rhs) { return lhs.x != rhs.x; }
+inline HOST_DEVICE bool operator!=(BFloat16& lhs, BFloat16& rhs) { return float(lhs) != float(rhs); }
 
 }  // namespace tinytorch
 
diff --git a/src/Utils/Half.h b/src/Utils/Half.h
index bf99a6a..d1fe2a9 100644
--- a/src/Utils/Half.h
+++ b/src/Utils/Half.h
@@ -540,9 +540,9 @@ inline HOST_DEVICE bool operator>=(Half& lhs, Half& rhs) { return float(lhs) >=
 
 inline HOST_DEVICE bool operator<=(Half& lhs, Half& rhs) { return float(lhs) <= float(rhs); }
 
-inline HOST_DEVICE bool operator==(Half& lhs, Half& rhs) { return lhs.x == rhs.x; }
+inline HOST_DEVICE bool operator==(Half& lhs, Half& rhs) { return float(lhs) == float(rhs); }
 
-inline HOST_DEVICE bool operator!=(Half& lhs, Half& rhs) { return lhs.x != rhs.x; }
+inline HOST_DEVICE bool operator!=(Half& lhs, Half& rhs) { return float(lhs) != float(rhs); }
 
 }  // namespace tinytorch
 
-- 
2.43.0


From 0873a46bd9cd163ccd886390014a84ab43047d71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:03 +0000
Subject: [PATCH 07/78] fix: expand rejects sizes that do not match the
 tensor's dimensions

---
 src/Operation/OpTransformCpu.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/Operation/OpTransformCpu.h b/src/Operation/OpTransformCpu.h
index f8d1fe9..d03f3fe 100644
--- a/src/Operation/OpTransformCpu.h
+++ b/src/Operation/OpTransformCpu.h
@@ -308,6 +308,7 @@ Tensor expandOpCpuImpl(const Tensor& self, IntArrayView sizes) {
       retShape[i] = (inputIdx >= 0 ? self.shape(inputIdx) : 1);
     } else {
       ASSERT(sizes[i] > 0);
+      ASSERT(inputIdx < 0 || self.shape(inputIdx) == 1 || self.shape(inputIdx) == sizes[i]);
       retShape[i] = sizes[i];
     }
   }
-- 
2.43.0


From d78eb3b734d7083ab006b5d50097bf4a35a585f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:03 +0000
Subject: [PATCH 08/78] fix: compare a tensor's byte range, not its element
 offset, with the storage size

---
 src/Tensor/TensorImpl.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Tensor/TensorImpl.cpp b/src/Tensor/TensorImpl.cpp
index 120cf42..975145a 100644
--- a/src/Tensor/TensorImpl.cpp
+++ b/src/Tensor/TensorImpl.cpp
@@ -24,14 +24,14 @@ TensorImpl::TensorImpl(const IntArrayView shape, Options options, const std::sha
   computeNumel(numel_, shape);
   computeStrides(strides_, shape);
 
-  ASSERT(offset + nbytes() <= storage->size());
+  ASSERT(offset >= 0 && offset * static_cast<int64_t>(dtypeSize(options.dtype_)) + nbytes() <= storage->size());
   storageOffset_ = offset;
   storage_ = storage;
   dataPtr_ = storage_->dataPtr<uint8_t>() + storageOffset_ * dtypeSize(options.dtype_);
 }
 
 void TensorImpl::setStorage(const std::shared_ptr<Storage>& storage, int64_t offset) {
-  ASSERT(offset + nbytes() <= storage->size());
+  ASSERT(offset >= 0 && offset * static_cast<int64_t>(dtypeSize(options_.dtype_)) + nbytes() <= storage->size());
   storage_ = storage;
   storageOffset_ = offset;
   dataPtr_ = storage_->dataPtr<uint8_t>() + storageOffset_ * dtypeSize(options_.dtype_);
-- 
2.43.0


From 40ab9b4f12ad91032975c320374672c3de7bab3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:03 +0000
Subject: [PATCH 09/78] fix: index into a view starts from the view's own
 offset

---
 src/Operation/OpTransform.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Operation/OpTransform.cpp b/src/Operation/OpTransform.cpp
index b97ea9c..63ddc61 100644
--- a/src/Operation/OpTransform.cpp
+++ b/src/Operation/OpTransform.cpp
@@ -111,7 +111,7 @@ Tensor indexOpImpl(const Tensor& self, const IntArrayView indices) {
     retShape.pushBack(self.shape(i));
   }
   // share storage
-  auto ret = Tensor(retShape, self.options(), self.storage(), dataIdx);
+  auto ret = Tensor(retShape, self.options(), self.storage(), self.storageOffset() + dataIdx);
   ASSERT(dimStride == ret.numel());
   return ret;
 }
-- 
2.43.0


From 78f8d7d9bff4f7ae242ac3e8c6329731dfc87983 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:03 +0000
Subject: [PATCH 10/78] fix: reject out-of-range indices when indexing, count
 negative ones from the end in indexSelect

---
 src/Operation/OpTransform.cpp  |  6 ++++--
 src/Operation/OpTransformCpu.h | 11 +++++++++--
 2 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/Operation/OpTransform.cpp b/src/Operation/OpTransform.cpp
index 63ddc61..325e498 100644
--- a/src/Operation/OpTransform.cpp
+++ b/src/Operation/OpTransform.cpp
@@ -93,9 +93,11 @@ void unsqueezeOpInplaceImpl(Tensor& self, int64_t dim) { self.getImpl().unsqueez
 inline std::pair<int64_t, int64_t> computeIndexAndStride(const Tensor& self, const IntArrayView indices) {
   auto len = static_cast<int64_t>(indices.size());
   int64_t dataIdx = 0;
+  ASSERT(len > 0 && len <= self.dim());
   for (int64_t i = 0; i < len; i++) {
-    auto idx = indices[i];
-    dataIdx += (idx >= 0 ? idx : idx + self.shape(i)) * self.stride(i);
+    auto idx = indices[i] >= 0 ? indices[i] : indices[i] + self.shape(i);
+    ASSERT(idx >= 0 && idx < self.shape(i));
+    dataIdx += idx * self.stride(i);
   }
   int64_t dimStride = self.stride(len - 1);
   return {dataIdx, dimStride};
diff --git a/src/Operation/OpTransformCpu.h b/src/Operation/OpTransformCpu.h
index d03f3fe..0222c14 100644
--- a/src/Operation/OpTransformCpu.h
+++ b/src/Operation/OpTransformCpu.h
@@ -91,7 +91,10 @@ inline void getSubIndices(int64_t* subIndices, const Tensor& t, ArrayView<Tensor
     ASSERT(indices[i].dtype() == DType::Int64);
     auto* ptr = indices[i].dataPtr<int64_t>();
     auto ind = ptr[idx];
-    subIndices[i] = ind >= 0 ? ind : ind + t.shape(static_cast<int64_t>(i));
+    auto dimSize = t.shape(static_cast<int64_t>(i));
+    if (ind < 0) ind += dimSize;
+    ASSERT(ind >= 0 && ind < dimSize);
+    subIndices[i] = ind;
   }
 }
 
@@ -108,6 +111,7 @@ void index2DCpuImpl(const Tensor& self, ArrayView<Tensor> indices, int64_t first
     int64_t idx1 = idx1Ptr[i];
     if (idx0 < 0) idx0 += dim0;
     if (idx1 < 0) idx1 += dim1;
+    ASSERT(idx0 >= 0 && idx0 < dim0 && idx1 >= 0 && idx1 < dim1);
     int64_t dataIdx = idx0 * dim1 + idx1;
     func(i, dataIdx);
   }
@@ -374,7 +378,10 @@ Tensor indexSelectOpCpuImpl(const Tensor& self, int64_t dim, const Tensor& index
     int64_t selfOffset = 0;
     for (int64_t d = 0; d < ndim; d++) {
       if (d == dim) {
-        selfOffset += indexPtr[counter[d]] * self.stride(d);
+        int64_t idx = indexPtr[counter[d]];
+        if (idx < 0) idx += self.shape(d);
+        ASSERT(idx >= 0 && idx < self.shape(d));
+        selfOffset += idx * self.stride(d);
       } else {
         selfOffset += counter[d] * self.stride(d);
       }
-- 
2.43.0


From 42aebe462aaeabc94945c65fb5a1d4f8f1ad42c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:03 +0000
Subject: [PATCH 11/78] fix: advanced indexPut copies a shared buffer before
 writing

---
 src/Operation/OpTransformCpu.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/Operation/OpTransformCpu.h b/src/Operation/OpTransformCpu.h
index 0222c14..7883f73 100644
--- a/src/Operation/OpTransformCpu.h
+++ b/src/Operation/OpTransformCpu.h
@@ -151,6 +151,7 @@ void indexPutAdvanceOpCpuImpl(Tensor& self, ArrayView<Tensor> indices, const Ten
   auto firstDim = indices[0].numel();
   auto dimStride = self.stride(len - 1);
 
+  self.copyOnWrite();
   T* selfPtr = self.dataPtr<T>();
   const T* valPtr = val.dataPtr<T>();
 
-- 
2.43.0


From 66b0ecbe54ef4779624ca991f25247957cb38ff3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:45 +0000
Subject: [PATCH 12/78] fix: gather and scatter reject index and source shapes
 that reach outside the tensors

---
 src/Operation/OpTransformCpu.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/Operation/OpTransformCpu.h b/src/Operation/OpTransformCpu.h
index 7883f73..7e96688 100644
--- a/src/Operation/OpTransformCpu.h
+++ b/src/Operation/OpTransformCpu.h
@@ -234,6 +234,10 @@ void indexCoordForEach(const Tensor& self, int64_t dim, const Tensor& index, F f
   }
   ASSERT(dim >= 0 && dim < self.dim());
   ASSERT(index.dim() == self.dim());
+  ASSERT(index.dtype() == DType::Int64);
+  for (int64_t d = 0; d < self.dim(); d++) {
+    ASSERT(d == dim || index.shape(d) <= self.shape(d));
+  }
 
   const auto* idxPtr = index.dataPtr<int64_t>();
   auto strides = self.strides();
@@ -283,6 +287,7 @@ Tensor scatterOpCpuImpl(const Tensor& self, int64_t dim, const Tensor& index, co
   Tensor ret = self.clone();
   ret.setRequiresGrad(false);
   ret.copyOnWrite();
+  ASSERT(src.shape() == index.shape());
 
   T* retPtr = ret.dataPtr<T>();
   const T* srcPtr = src.dataPtr<T>();
@@ -293,6 +298,7 @@ Tensor scatterOpCpuImpl(const Tensor& self, int64_t dim, const Tensor& index, co
 
 template <typename T>
 void scatterOpInplaceCpuImpl(Tensor& self, int64_t dim, const Tensor& index, const Tensor& src) {
+  ASSERT(src.shape() == index.shape());
   self.copyOnWrite();
   T* selfPtr = self.dataPtr<T>();
   const T* srcPtr = src.dataPtr<T>();
-- 
2.43.0


From e0c10b306b8234fbae3173ed000950d59f6b303f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:02 +0000
Subject: [PATCH 13/78] fix: advanced indexing rejects index tensors of
 different lengths

---
 src/Operation/OpTransformCpu.h | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/Operation/OpTransformCpu.h b/src/Operation/OpTransformCpu.h
index 7e96688..6e870c7 100644
--- a/src/Operation/OpTransformCpu.h
+++ b/src/Operation/OpTransformCpu.h
@@ -117,8 +117,16 @@ void index2DCpuImpl(const Tensor& self, ArrayView<Tensor> indices, int64_t first
   }
 }
 
+inline void checkAdvanceIndices(const Tensor& self, ArrayView<Tensor> indices) {
+  ASSERT(!indices.empty() && static_cast<int64_t>(indices.size()) <= self.dim());
+  for (const auto& index : indices) {
+    ASSERT(index.numel() == indices[0].numel());
+  }
+}
+
 template <typename T>
 Tensor indexAdvanceOpCpuImpl(const Tensor& self, ArrayView<Tensor> indices) {
+  checkAdvanceIndices(self, indices);
   auto len = static_cast<int64_t>(indices.size());
   auto firstDim = indices[0].numel();
   auto dimStride = self.stride(len - 1);
@@ -147,6 +155,7 @@ Tensor indexAdvanceOpCpuImpl(const Tensor& self, ArrayView<Tensor> indices) {
 
 template <typename T>
 void indexPutAdvanceOpCpuImpl(Tensor& self, ArrayView<Tensor> indices, const Tensor& val) {
+  checkAdvanceIndices(self, indices);
   auto len = static_cast<int64_t>(indices.size());
   auto firstDim = indices[0].numel();
   auto dimStride = self.stride(len - 1);
-- 
2.43.0


From 0879da6025a40914ff70d4e7e9acfab9db121ade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:02 +0000
Subject: [PATCH 14/78] fix: out-parameter forms of unary operations and
 softmax copy a shared buffer before writing

---
 src/Operation/OpElemWiseCpu.h | 1 +
 src/Operation/OpNNLayerCpu.h  | 2 ++
 2 files changed, 3 insertions(+)

diff --git a/src/Operation/OpElemWiseCpu.h b/src/Operation/OpElemWiseCpu.h
index ac6bf3f..a8bb948 100644
--- a/src/Operation/OpElemWiseCpu.h
+++ b/src/Operation/OpElemWiseCpu.h
@@ -307,6 +307,7 @@ Tensor unaryOpCpuImpl(const Tensor& self) {
 template <typename T, typename OP>
 void unaryOpOutCpuImpl(Tensor& out, const Tensor& self) {
   ASSERT(self.shape() == out.shape());
+  out.copyOnWrite();
   T* outPtr = out.dataPtr<T>();
   const T* selfPtr = self.dataPtr<T>();
   for (int64_t i = 0; i < self.numel(); i++) {
diff --git a/src/Operation/OpNNLayerCpu.h b/src/Operation/OpNNLayerCpu.h
index 4a771e1..d4e56c5 100644
--- a/src/Operation/OpNNLayerCpu.h
+++ b/src/Operation/OpNNLayerCpu.h
@@ -65,6 +65,7 @@ void softmaxForwardCpuImpl(Tensor& out, const Tensor& self, int64_t dim) {
 
 template <typename T>
 void softmaxOpOutCpuImpl(Tensor& out, const Tensor& self, int64_t dim) {
+  out.copyOnWrite();
   softmaxForwardCpuImpl<T, SoftmaxType::Softmax>(out, self, dim);
 }
 
@@ -110,6 +111,7 @@ Tensor softmaxOpBackwardCpuImpl(const Tensor& grad, const Tensor& output, int64_
 
 template <typename T>
 void logSoftmaxOpOutCpuImpl(Tensor& out, const Tensor& self, int64_t dim) {
+  out.copyOnWrite();
   softmaxForwardCpuImpl<T, SoftmaxType::LogSoftmax>(out, self, dim);
 }
 
-- 
2.43.0


From 485b3f575b5b1e4f90607f013fb4de355b29c070 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:02 +0000
Subject: [PATCH 15/78] fix: log-softmax into its own input reads the values it
 still needs

---
 src/Operation/OpNNLayerCpu.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/Operation/OpNNLayerCpu.h b/src/Operation/OpNNLayerCpu.h
index d4e56c5..52c9c31 100644
--- a/src/Operation/OpNNLayerCpu.h
+++ b/src/Operation/OpNNLayerCpu.h
@@ -40,7 +40,9 @@ void softmaxForwardCpuImpl(Tensor& out, const Tensor& self, int64_t dim) {
       offset = base;
       for (int64_t d = 0; d < info.dimSize; d++) {
         T e = std::exp(selfPtr[offset] - maxVal);
-        outPtr[offset] = e;
+        if constexpr (type == SoftmaxType::Softmax) {
+          outPtr[offset] = e;
+        }
         sum += e;
         offset += info.innerSize;
       }
-- 
2.43.0


From 47c96c58997925774e767200d11ee550f34f9921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:16 +0000
Subject: [PATCH 16/78] fix: setting or accumulating a gradient never aliases
 the caller's tensor

---
 src/Tensor/AutogradMeta.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Tensor/AutogradMeta.cpp b/src/Tensor/AutogradMeta.cpp
index e7925d7..d913c5d 100644
--- a/src/Tensor/AutogradMeta.cpp
+++ b/src/Tensor/AutogradMeta.cpp
@@ -22,7 +22,7 @@ void AutogradMeta::setGradFn(const std::shared_ptr<FunctionBase> &fn) {
   fn->weakOwner = shared_from_this();
 }
 
-void AutogradMeta::setGrad(const Tensor &grad) { grad_ = grad; }
+void AutogradMeta::setGrad(const Tensor &grad) { grad_ = grad.clone(); }
 
 void AutogradMeta::setGrad(Tensor &&grad) { grad_ = std::move(grad); }
 
@@ -30,7 +30,7 @@ void AutogradMeta::addGrad(const Tensor &grad) {
   if (grad_.defined()) {
     op::addInplace(grad_, grad, 1);
   } else {
-    grad_ = grad;
+    grad_ = grad.clone();
   }
 }
 
-- 
2.43.0


From 6b3f602acccbd057a83fb8556c77f34949da616f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:48 +0000
Subject: [PATCH 17/78] fix: shape operations no longer return tensors that
 claim to require grad when nothing is recorded

---
 src/Operation/OpTransform.cpp  | 7 ++++++-
 src/Operation/OpTransformCpu.h | 4 +++-
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/Operation/OpTransform.cpp b/src/Operation/OpTransform.cpp
index 325e498..bedab51 100644
--- a/src/Operation/OpTransform.cpp
+++ b/src/Operation/OpTransform.cpp
@@ -47,6 +47,7 @@ void reorderIndices(int64_t* indices, int64_t ndim, const IntArrayView order) {
 
 Tensor reshapeOpImpl(const Tensor& self, const IntArrayView shape) {
   Tensor ret = self.clone();
+  ret.setRequiresGrad(false);
   ret.getImpl().reshape_(shape);
   return ret;
 }
@@ -58,6 +59,7 @@ void reshapeOpInplaceImpl(Tensor& self, const IntArrayView shape) {
 
 Tensor flattenOpImpl(const Tensor& self, int64_t startDim, int64_t endDim) {
   Tensor ret = self.clone();
+  ret.setRequiresGrad(false);
   ret.getImpl().flatten_(startDim, endDim);
   return ret;
 }
@@ -68,6 +70,7 @@ void flattenOpInplaceImpl(Tensor& self, int64_t startDim = 0, int64_t endDim = -
 
 Tensor unflattenOpImpl(const Tensor& self, int64_t dim, const IntArrayView shape) {
   Tensor ret = self.clone();
+  ret.setRequiresGrad(false);
   ret.getImpl().unflatten_(dim, shape);
   return ret;
 }
@@ -77,6 +80,7 @@ void unflattenOpInplaceImpl(Tensor& self, int64_t dim, const IntArrayView shape)
 
 Tensor squeezeOpImpl(const Tensor& self, const IntArrayView dims) {
   Tensor ret = self.clone();
+  ret.setRequiresGrad(false);
   ret.getImpl().squeeze_(dims);
   return ret;
 }
@@ -84,6 +88,7 @@ void squeezeOpInplaceImpl(Tensor& self, const IntArrayView dims) { self.getImpl(
 
 Tensor unsqueezeOpImpl(const Tensor& self, int64_t dim) {
   Tensor ret = self.clone();
+  ret.setRequiresGrad(false);
   ret.getImpl().unsqueeze_(dim);
   return ret;
 }
@@ -113,7 +118,7 @@ Tensor indexOpImpl(const Tensor& self, const IntArrayView indices) {
     retShape.pushBack(self.shape(i));
   }
   // share storage
-  auto ret = Tensor(retShape, self.options(), self.storage(), self.storageOffset() + dataIdx);
+  auto ret = Tensor(retShape, self.options().noGrad(), self.storage(), self.storageOffset() + dataIdx);
   ASSERT(dimStride == ret.numel());
   return ret;
 }
diff --git a/src/Operation/OpTransformCpu.h b/src/Operation/OpTransformCpu.h
index 6e870c7..530c27a 100644
--- a/src/Operation/OpTransformCpu.h
+++ b/src/Operation/OpTransformCpu.h
@@ -66,7 +66,9 @@ Tensor transposeOpCpuImpl(const Tensor& self, int64_t dim0, int64_t dim1) {
   }
 
   if (dim0 == dim1) {
-    return self.clone();
+    Tensor ret = self.clone();
+    ret.setRequiresGrad(false);
+    return ret;
   }
 
   if ((self.size(dim0) == 1 || self.size(dim1) == 1) && std::abs(dim0 - dim1) == 1) {
-- 
2.43.0


From aaacf4964f4c7e8375404c0aac9e65499a395a8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:48 +0000
Subject: [PATCH 18/78] fix: reductions of a scalar return a tensor of their
 own instead of their input

---
 src/Operation/OpReduceCpu.h | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/src/Operation/OpReduceCpu.h b/src/Operation/OpReduceCpu.h
index 77be05e..30e132f 100644
--- a/src/Operation/OpReduceCpu.h
+++ b/src/Operation/OpReduceCpu.h
@@ -180,10 +180,17 @@ Tensor ReducerCpu::reduceMultiDim(const Tensor &t, const IntArrayView dims, bool
   return ret;
 }
 
+// reducing a scalar yields its value in a tensor of its own
+inline Tensor reduceScalar(const Tensor &t) {
+  Tensor ret = t.clone();
+  ret.setRequiresGrad(false);
+  return ret;
+}
+
 template <typename T, typename OP>
 Tensor reduceOpAllCpuImpl(const Tensor &t) {
   if (t.isScalar()) {
-    return t;
+    return reduceScalar(t);
   }
   auto ret = Tensor::empty({}, t.options().noGrad());
   const T *tPtr = t.dataPtr<T>();
@@ -207,7 +214,7 @@ Tensor reduceOpArgMinMaxCpuImpl(const Tensor &t) {
 template <typename T, typename OP>
 TensorPair reduceOpMinMaxDimCpuImpl(const Tensor &t, int64_t dim, bool keepDims = false) {
   if (t.isScalar()) {
-    return {t, Tensor::scalar(0, t.options().noGrad().indices())};
+    return {reduceScalar(t), Tensor::scalar(0, t.options().noGrad().indices())};
   }
   return ReducerCpu::reduceIdxDim<T, OP>(t, dim, keepDims);
 }
@@ -215,7 +222,7 @@ TensorPair reduceOpMinMaxDimCpuImpl(const Tensor &t, int64_t dim, bool keepDims
 template <typename T>
 Tensor reduceOpSumDimsCpuImpl(const Tensor &t, const IntArrayView dims, bool keepDims = false) {
   if (t.isScalar()) {
-    return t;
+    return reduceScalar(t);
   }
   ASSERT(!dims.empty());
   return ReducerCpu::reduceMultiDim<T>(t, dims, keepDims, [](T *retPtr, const T *tPtr, int64_t retIdx, int64_t srcIdx) {
@@ -236,7 +243,7 @@ Tensor reduceOpSumCpuImpl(const Tensor &t) {
 template <typename T>
 Tensor reduceOpMeanCpuImpl(const Tensor &t) {
   if (t.isScalar()) {
-    return t;
+    return reduceScalar(t);
   }
   auto ret = reduceOpAllCpuImpl<T, OpCpuReduceSum>(t);
   const auto r = 1.f / static_cast<float>(t.numel());
@@ -247,7 +254,7 @@ Tensor reduceOpMeanCpuImpl(const Tensor &t) {
 template <typename T>
 Tensor reduceOpMeanDimsCpuImpl(const Tensor &t, const IntArrayView dims, bool keepDims = false) {
   if (t.isScalar()) {
-    return t;
+    return reduceScalar(t);
   }
   ASSERT(!dims.empty());
   auto ret = reduceOpSumDimsCpuImpl<T>(t, dims, keepDims);
@@ -266,7 +273,7 @@ Tensor reduceOpMeanDimCpuImpl(const Tensor &t, const int64_t dim, bool keepDims
 template <typename T>
 TensorPair reduceOpVarMeanCpuImpl(const Tensor &t, bool unbiased = true) {
   if (t.isScalar()) {
-    return {Tensor::scalar(0, t.options().noGrad()), t};
+    return {Tensor::scalar(0, t.options().noGrad()), reduceScalar(t)};
   }
   const auto meanVal = op::mean(t);
 
@@ -292,7 +299,7 @@ template <typename T>
 TensorPair reduceOpVarMeanDimsCpuImpl(const Tensor &t, const IntArrayView dims, bool unbiased = true,
                                       bool keepDims = false) {
   if (t.isScalar()) {
-    return {Tensor::scalar(0, t.options().noGrad()), t};
+    return {Tensor::scalar(0, t.options().noGrad()), reduceScalar(t)};
   }
   ASSERT(!dims.empty());
   auto meanVal = op::meanOnDims(t, dims, true);
-- 
2.43.0


From 14b2d7a86a33124c1de88a9888d48fbc8765d67d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:08 +0000
Subject: [PATCH 19/78] fix: varMean over dimensions drops the reduced
 dimensions of the mean too when keepDims is false

---
 src/Operation/OpReduceCpu.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/Operation/OpReduceCpu.h b/src/Operation/OpReduceCpu.h
index 30e132f..5827a6c 100644
--- a/src/Operation/OpReduceCpu.h
+++ b/src/Operation/OpReduceCpu.h
@@ -8,6 +8,7 @@
 
 #include "OpElemWise.h"
 #include "OpReduce.h"
+#include "OpTransform.h"
 
 namespace tinytorch::op {
 
@@ -317,6 +318,9 @@ TensorPair reduceOpVarMeanDimsCpuImpl(const Tensor &t, const IntArrayView dims,
       r *= reduceSize / (reduceSize - 1.f);
     }
     op::mulInplace(varVal, Tensor::scalar(r, varVal.options().noGrad()));
+    if (!keepDims) {
+      meanVal = op::reshape(meanVal, varVal.shape());
+    }
   }
   return {varVal, meanVal};
 }
-- 
2.43.0


From c220230136f9c0c551f9116aee7a07dbfe9dd29d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:13 +0000
Subject: [PATCH 20/78] fix: min and max of values that are all infinite are
 infinite

---
 src/Operation/OpReduceCpu.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Operation/OpReduceCpu.h b/src/Operation/OpReduceCpu.h
index 5827a6c..eb02b81 100644
--- a/src/Operation/OpReduceCpu.h
+++ b/src/Operation/OpReduceCpu.h
@@ -25,7 +25,7 @@ struct OpCpuReduceMin {
 
   template <typename T>
   static T defaultVal() {
-    return std::numeric_limits<T>::max();
+    return std::numeric_limits<T>::infinity();
   }
 };
 
@@ -42,7 +42,7 @@ struct OpCpuReduceMax {
 
   template <typename T>
   static T defaultVal() {
-    return -std::numeric_limits<T>::max();
+    return -std::numeric_limits<T>::infinity();
   }
 };
 
-- 
2.43.0


From aafe013bb3c5d995cef8ca929b25721180df53bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:11 +0000
Subject: [PATCH 21/78] fix: batched matmul aligns the batch dimensions of its
 operands at the end when it broadcasts them

---
 src/Operation/OpLinalg.cpp | 29 ++++++++++++++++++++++-------
 1 file changed, 22 insertions(+), 7 deletions(-)

diff --git a/src/Operation/OpLinalg.cpp b/src/Operation/OpLinalg.cpp
index 6d956dc..09a71f7 100644
--- a/src/Operation/OpLinalg.cpp
+++ b/src/Operation/OpLinalg.cpp
@@ -21,6 +21,15 @@ inline SizeVector makePaddedStrides(const IntArrayView &strides, int64_t targetD
   return result;
 }
 
+inline SizeVector makePaddedShape(const IntArrayView &shape, int64_t targetDim) {
+  SizeVector result(targetDim, 1);
+  auto offset = targetDim - static_cast<int64_t>(shape.size());
+  for (int64_t i = 0; i < static_cast<int64_t>(shape.size()); i++) {
+    result[offset + i] = shape[i];
+  }
+  return result;
+}
+
 SizeVector broadcastShape(const IntArrayView t0, const IntArrayView t1, int64_t skipLast) {
   SizeVector retShape = SizeVector(t0.size() > t1.size() ? t0 : t1);
 
@@ -104,7 +113,10 @@ Tensor matmulOpImplDetail(const Tensor &a, const Tensor &b, bool transA = false,
 
   if (retDimCnt > 2) {
     // batched matrix multiply with broadcasting
-    int64_t batchSize = retTensor.numel() / (m * n);
+    int64_t batchSize = 1;
+    for (int64_t i = 0; i < retDimCnt - 2; i++) {
+      batchSize *= retShape[i];
+    }
 
     // strided batched gemm
     auto gemmStridedBatched = getGemmStridedBatchedFunc<T>(a.device().type);
@@ -147,8 +159,11 @@ Tensor matmulOpImplDetail(const Tensor &a, const Tensor &b, bool transA = false,
       }
     }
 
-    SizeVector aStrides = makePaddedStrides(a.strides(), retTensor.dim());
-    SizeVector bStrides = makePaddedStrides(b.strides(), retTensor.dim());
+    // sizes and strides aligned with the last dimension of the result
+    SizeVector aStrides = makePaddedStrides(a.strides(), retDimCnt);
+    SizeVector bStrides = makePaddedStrides(b.strides(), retDimCnt);
+    SizeVector aBatchShape = makePaddedShape(shapeA, retDimCnt);
+    SizeVector bBatchShape = makePaddedShape(shapeB, retDimCnt);
 
     // pointer arrays based batched gemm
     auto gemmBatched = getGemmBatchedFunc<T>(a.device().type);
@@ -165,10 +180,10 @@ Tensor matmulOpImplDetail(const Tensor &a, const Tensor &b, bool transA = false,
         for (auto i = retDimCnt - 3; i >= 0; i--) {
           int64_t index = tmp % retShape[i];
           tmp /= retShape[i];
-          if (static_cast<int64_t>(a.shape().size()) > i && a.shape()[i] != 1) {
+          if (aBatchShape[i] != 1) {
             aOffset += index * aStrides[i];
           }
-          if (static_cast<int64_t>(b.shape().size()) > i && b.shape()[i] != 1) {
+          if (bBatchShape[i] != 1) {
             bOffset += index * bStrides[i];
           }
         }
@@ -208,10 +223,10 @@ Tensor matmulOpImplDetail(const Tensor &a, const Tensor &b, bool transA = false,
       for (auto i = retDimCnt - 3; i >= 0; i--) {
         int64_t index = tmp % retShape[i];
         tmp /= retShape[i];
-        if (static_cast<int64_t>(a.shape().size()) > i && a.shape()[i] != 1) {
+        if (aBatchShape[i] != 1) {
           aOffset += index * aStrides[i];
         }
-        if (static_cast<int64_t>(b.shape().size()) > i && b.shape()[i] != 1) {
+        if (bBatchShape[i] != 1) {
           bOffset += index * bStrides[i];
         }
       }
-- 
2.43.0


From 87e787b9f2505d2bc89ea64e333b706e7e97fcac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:14 +0000
Subject: [PATCH 22/78] fix: products of a vector and a batch of matrices drop
 the dimension added to the vector

---
 src/Operation/OpLinalg.cpp | 42 ++++++++++++++++----------------------
 1 file changed, 18 insertions(+), 24 deletions(-)

diff --git a/src/Operation/OpLinalg.cpp b/src/Operation/OpLinalg.cpp
index 09a71f7..169602b 100644
--- a/src/Operation/OpLinalg.cpp
+++ b/src/Operation/OpLinalg.cpp
@@ -108,6 +108,21 @@ Tensor matmulOpImplDetail(const Tensor &a, const Tensor &b, bool transA = false,
   const T *otherPtr = b.dataPtr<T>();
   T *retPtr = retTensor.dataPtr<T>();
 
+  // drop the dimensions that were added to one-dimensional operands
+  auto reduceDims = [&]() {
+    if (!prependA && !appendB) {
+      return;
+    }
+    SizeVector shape(IntArrayView(retShape.data(), retDimCnt - 2));
+    if (!prependA) {
+      shape.pushBack(m);
+    }
+    if (!appendB) {
+      shape.pushBack(n);
+    }
+    retTensor.reshape_(shape);
+  };
+
   auto gemm = getGemmFunc<T>(a.device().type);
   ASSERT(gemm != nullptr);
 
@@ -148,13 +163,7 @@ Tensor matmulOpImplDetail(const Tensor &a, const Tensor &b, bool transA = false,
                            a.device().index);
 
         // reduce dimension if necessary
-        if (appendB) {
-          if (prependA) {
-            retTensor.reshape_({});
-          } else {
-            retTensor.reshape_({m});
-          }
-        }
+        reduceDims();
         return retTensor;
       }
     }
@@ -205,13 +214,7 @@ Tensor matmulOpImplDetail(const Tensor &a, const Tensor &b, bool transA = false,
       gemmBatched(cPtrsDevice, aPtrsDevice, bPtrsDevice, m, k, n, batchSize, transA, transB, a.device().index);
 
       // reduce dimension if necessary
-      if (appendB) {
-        if (prependA) {
-          retTensor.reshape_({});
-        } else {
-          retTensor.reshape_({m});
-        }
-      }
+      reduceDims();
       return retTensor;
     }
 
@@ -235,19 +238,10 @@ Tensor matmulOpImplDetail(const Tensor &a, const Tensor &b, bool transA = false,
     }
   } else {
     gemm(retPtr, selfPtr, otherPtr, m, k, n, transA, transB, a.device().index);
-    if (prependA) {
-      retTensor.reshape_({n});
-    }
   }
 
   // reduce dimension if necessary
-  if (appendB) {
-    if (prependA) {
-      retTensor.reshape_({});
-    } else {
-      retTensor.reshape_({m});
-    }
-  }
+  reduceDims();
 
   return retTensor;
 }
-- 
2.43.0


From 4ced270baf97b4d4ae7ad03be8f98f9191b57b5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:35 +0000
Subject: [PATCH 23/78] fix: dot rejects operands of different lengths instead
 of reading past the shorter one

---
 src/Operation/OpLinalgCpu.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/Operation/OpLinalgCpu.h b/src/Operation/OpLinalgCpu.h
index 5a83028..e8a9c78 100644
--- a/src/Operation/OpLinalgCpu.h
+++ b/src/Operation/OpLinalgCpu.h
@@ -18,6 +18,7 @@ namespace tinytorch::op {
 
 template <typename T>
 Tensor dotOpCpuImpl(const Tensor& self, const Tensor& other) {
+  ASSERT(self.numel() == other.numel());
   T ret = 0;
   const T* selfPtr = self.dataPtr<T>();
   const T* otherPtr = other.dataPtr<T>();
-- 
2.43.0


From 4f5fa1c88a079e464ff6fcd0c6b7015026435ae7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:04 +0000
Subject: [PATCH 24/78] fix: conv2d with several output channels keeps each
 channel's values and gradients together

---
 src/Function/FuncNNLayer.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/Function/FuncNNLayer.h b/src/Function/FuncNNLayer.h
index 1003673..4687323 100644
--- a/src/Function/FuncNNLayer.h
+++ b/src/Function/FuncNNLayer.h
@@ -167,6 +167,9 @@ class FuncConv2D : public Function<FuncConv2D> {
       ASSERT(bias.shape()[0] == outChannels);
       op::addInplace(ret, bias, 1);
     }
+    // [batch * outH * outW, outChannels] -> [batch, outChannels, outH, outW]
+    ret.reshape_({batch, outH * outW, outChannels});
+    ret = op::transpose(ret, 1, 2);
     ret.reshape_({batch, outChannels, outH, outW});
 
     if (ctx) {
@@ -188,7 +191,10 @@ class FuncConv2D : public Function<FuncConv2D> {
     auto stride = ctx->popData().toDim2D();
     auto padding = ctx->popData().toDim2D();
 
-    auto gradW = op::reshape(grad, IntArrayView{-1, outChannels});
+    // [batch, outChannels, outH, outW] -> [batch * outH * outW, outChannels]
+    auto gradW = op::reshape(grad, IntArrayView{grad.shape()[0], outChannels, grad.shape()[2] * grad.shape()[3]});
+    gradW = op::transpose(gradW, 1, 2);
+    gradW.reshape_({-1, outChannels});
     auto colW = op::reshape(weight, IntArrayView{outChannels, -1});
 
     if (input.requiresGrad()) {
-- 
2.43.0


From a363889f45ee2fee4f4a05f24de8653d43358935 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:32 +0000
Subject: [PATCH 25/78] fix: max-pooling of several channels keeps each
 channel's values and gradients together

---
 src/Function/FuncNNLayer.h | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/Function/FuncNNLayer.h b/src/Function/FuncNNLayer.h
index 4687323..16aa455 100644
--- a/src/Function/FuncNNLayer.h
+++ b/src/Function/FuncNNLayer.h
@@ -94,8 +94,15 @@ class FuncMaxPool : public Function<FuncMaxPool> {
     auto maxRet = op::maxOnDim(col, 1, false);
     auto maxIndices = maxRet.second;
 
+    // [batch * outH * outW * channels] -> [batch, channels, outH, outW]
     auto output = maxRet.first;
-    output.reshape_({batch, channels, outH, outW});
+    output.reshape_({batch, outH * outW, channels});
+    output = op::transpose(output, 1, 2);
+    if (shape.size() == 4) {
+      output.reshape_({batch, channels, outH, outW});
+    } else {
+      output.reshape_({channels, outH, outW});
+    }
 
     if (ctx) {
       ctx->pushData(kernel);
@@ -129,9 +136,14 @@ class FuncMaxPool : public Function<FuncMaxPool> {
     if (input.requiresGrad()) {
       auto maxIndices = ctx->popData().toTensor();
 
+      // [batch, channels, outH, outW] -> [batch * outH * outW * channels]
+      auto gradW = op::reshape(grad, IntArrayView{batch, channels, outH * outW});
+      gradW = op::transpose(gradW, 1, 2);
+      gradW.reshape_({-1});
+
       auto gradCol = Tensor::zeros({grad.numel(), kernel.h * kernel.w}, input.options().noGrad());
       auto idx = Tensor::arange<int64_t>(0, grad.numel(), 1, input.options().noGrad());
-      op::indexPutAdvance(gradCol, ArrayView<Tensor>{idx, maxIndices}, grad);
+      op::indexPutAdvance(gradCol, ArrayView<Tensor>{idx, maxIndices}, gradW);
       gradCol.reshape_({batch * outH * outW, channels * kernel.h * kernel.w});
       auto inputGrad = op::col2im(gradCol, shape, kernel, stride, padding);
       // TODO fuse
-- 
2.43.0


From e20582b4ffe3044108ab3aa22eee4467b26da939 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:58 +0000
Subject: [PATCH 26/78] fix: padding of a max-pooling window no longer counts
 as zero

---
 src/Function/FuncNNLayer.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/Function/FuncNNLayer.h b/src/Function/FuncNNLayer.h
index 16aa455..cb3cf33 100644
--- a/src/Function/FuncNNLayer.h
+++ b/src/Function/FuncNNLayer.h
@@ -89,6 +89,12 @@ class FuncMaxPool : public Function<FuncMaxPool> {
     auto outW = (width - kernel.w + 2 * padding.w) / stride.w + 1;
 
     auto col = op::im2col(input, kernel, stride, padding);
+    if (padding.h > 0 || padding.w > 0) {
+      // padding never wins
+      auto inside = op::im2col(Tensor::onesLike(input, input.options().noGrad()), kernel, stride, padding);
+      op::fillMaskedInplace(col, op::eq(inside, Tensor::scalar(0, inside.options())),
+                            -std::numeric_limits<float>::infinity());
+    }
     col.reshape_({-1, kernel.h * kernel.w});
 
     auto maxRet = op::maxOnDim(col, 1, false);
-- 
2.43.0


From fec1a9ae1708f218a7824974cfd8c61251bbd091 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:13 +0000
Subject: [PATCH 27/78] fix: the negative log-likelihood's backward pass uses
 the incoming gradient

---
 src/Operation/OpLossCpu.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Operation/OpLossCpu.h b/src/Operation/OpLossCpu.h
index 4c10b25..5fc15cd 100644
--- a/src/Operation/OpLossCpu.h
+++ b/src/Operation/OpLossCpu.h
@@ -79,7 +79,7 @@ Tensor nllLossOpBackwardCpuImpl(const Tensor& grad, const Tensor& input, const T
   auto batchSize = input.shape(0);
   auto idx = Tensor::arange<int64_t>(0, batchSize, 1, input.options().noGrad());
   Tensor out = Tensor::zeros(input.shape(), input.options().noGrad());
-  op::indexPutAdvance(out, ArrayView<Tensor>{idx, target}, Tensor::scalar(-1, out.options().noGrad()));
+  op::indexPutAdvance(out, ArrayView<Tensor>{idx, target}, op::neg(grad));
 
   switch (reduction) {
     case LossReduction::MEAN:
-- 
2.43.0


From 965cc8c43f06314b0457fea879f1cab7862ff9b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:02 +0000
Subject: [PATCH 28/78] fix: the mean-squared error's gradient has the shape of
 a broadcast input

---
 src/Function/FuncLoss.h   | 3 ++-
 src/Operation/OpLossCpu.h | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/Function/FuncLoss.h b/src/Function/FuncLoss.h
index 1f54ca7..f485f31 100644
--- a/src/Function/FuncLoss.h
+++ b/src/Function/FuncLoss.h
@@ -6,6 +6,7 @@
 
 #pragma once
 
+#include "FuncElemWise.h"
 #include "Operations.h"
 #include "Tensor/Function.h"
 
@@ -28,7 +29,7 @@ namespace tinytorch::function {
       auto reduction = ctx->popData().toEnum<LossReduction>();                                                        \
                                                                                                                       \
       if (input.requiresGrad()) {                                                                                     \
-        input.addGrad(BACKWARD_OP(grad, input, target, reduction));                                                   \
+        input.addGrad(reduceGrad(input, BACKWARD_OP(grad, input, target, reduction)));                                \
       }                                                                                                               \
       ASSERT(!target.requiresGrad());                                                                                 \
     }                                                                                                                 \
diff --git a/src/Operation/OpLossCpu.h b/src/Operation/OpLossCpu.h
index 5fc15cd..00b89bf 100644
--- a/src/Operation/OpLossCpu.h
+++ b/src/Operation/OpLossCpu.h
@@ -42,7 +42,7 @@ Tensor mseLossOpBackwardCpuImpl(const Tensor& grad, const Tensor& input, const T
 
   switch (reduction) {
     case LossReduction::MEAN:
-      op::divInplace(out, Tensor::scalar(input.numel(), out.options().noGrad()));
+      op::divInplace(out, Tensor::scalar(out.numel(), out.options().noGrad()));
       break;
     default:
       break;
-- 
2.43.0


From 2867d18f684c0f3aa21f1553128f7f3418be805c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:30 +0000
Subject: [PATCH 29/78] fix: the gradients of linear are right for inputs that
 are not two-dimensional

---
 src/Function/FuncNNLayer.h | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/Function/FuncNNLayer.h b/src/Function/FuncNNLayer.h
index cb3cf33..baad305 100644
--- a/src/Function/FuncNNLayer.h
+++ b/src/Function/FuncNNLayer.h
@@ -27,14 +27,20 @@ class FuncLinear : public Function<FuncLinear> {
     auto& weight = ctx->savedInputs[1];
     auto& bias = ctx->savedInputs[2];
 
+    // rows of features, whatever the leading dimensions
+    auto gradRows = op::reshape(grad, IntArrayView{-1, weight.shape(0)});
+
     if (input.requiresGrad()) {
-      input.addGrad(op::matmul(grad, weight, false, false));
+      auto inputGrad = op::matmul(gradRows, weight, false, false);
+      op::reshapeInplace(inputGrad, input.shape());
+      input.addGrad(std::move(inputGrad));
     }
     if (weight.requiresGrad()) {
-      weight.addGrad(op::matmul(grad, input, true, false));
+      auto inputRows = op::reshape(input, IntArrayView{-1, weight.shape(1)});
+      weight.addGrad(op::matmul(gradRows, inputRows, true, false));
     }
     if (bias.defined() && bias.requiresGrad()) {
-      bias.addGrad(op::sumOnDim(grad, 0, false));
+      bias.addGrad(op::sumOnDim(gradRows, 0, false));
     }
   }
 };
-- 
2.43.0


From 81936c4dd29e0c13078c17761860770994ee5359 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:55 +0000
Subject: [PATCH 30/78] fix: the gradient of permute is permuted back instead
 of reshaped

---
 src/Function/FuncTransform.h | 37 +++++++++++++++++++++++++++++++++---
 1 file changed, 34 insertions(+), 3 deletions(-)

diff --git a/src/Function/FuncTransform.h b/src/Function/FuncTransform.h
index 5afc356..1a15a6d 100644
--- a/src/Function/FuncTransform.h
+++ b/src/Function/FuncTransform.h
@@ -30,10 +30,41 @@ DEFINE_TRANSFORM_FUNCTION(FuncReshape, (AutogradContext * ctx, const Tensor& sel
 DEFINE_TRANSFORM_FUNCTION(FuncView, (AutogradContext * ctx, const Tensor& self, const IntArrayView shape),
                           return op::view(self, shape););
 
-DEFINE_TRANSFORM_FUNCTION(FuncPermute, (AutogradContext * ctx, const Tensor& self, const IntArrayView dims),
-                          return op::permute(self, dims););
+class FuncPermute : public Function<FuncPermute> {
+ public:
+  static Tensor forward(AutogradContext* ctx, const Tensor& self, const IntArrayView dims) {
+    if (ctx) {
+      for (auto d : dims) {
+        ctx->pushData(d < 0 ? d + self.dim() : d);
+      }
+    }
+    return op::permute(self, dims);
+  }
+  static void backward(AutogradContext* ctx, const Tensor& grad) {
+    auto& self = ctx->savedInputs[0];
+
+    if (self.requiresGrad()) {
+      // inverse permutation
+      SizeVector inverse(self.dim(), 0);
+      for (int64_t i = 0; i < self.dim(); i++) {
+        inverse[ctx->savedData[i].toInt64()] = i;
+      }
+      self.addGrad(op::permute(grad, inverse));
+    }
+  }
+};
 
-DEFINE_TRANSFORM_FUNCTION(FuncPermuteAll, (AutogradContext * ctx, const Tensor& self), return op::permuteAll(self););
+class FuncPermuteAll : public Function<FuncPermuteAll> {
+ public:
+  static Tensor forward(AutogradContext* ctx, const Tensor& self) { return op::permuteAll(self); }
+  static void backward(AutogradContext* ctx, const Tensor& grad) {
+    auto& self = ctx->savedInputs[0];
+
+    if (self.requiresGrad()) {
+      self.addGrad(op::permuteAll(grad));
+    }
+  }
+};
 
 DEFINE_TRANSFORM_FUNCTION(FuncFlatten,
                           (AutogradContext * ctx, const Tensor& self, int64_t startDim = 0, int64_t endDim = -1),
-- 
2.43.0


From 5cd59e29d889c34069c7426fcb0dff9da0994db7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:19 +0000
Subject: [PATCH 31/78] fix: permute rejects axes that are out of range or
 repeated instead of reading out of bounds

---
 src/Operation/OpTransformCpu.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/Operation/OpTransformCpu.h b/src/Operation/OpTransformCpu.h
index 530c27a..d0aae96 100644
--- a/src/Operation/OpTransformCpu.h
+++ b/src/Operation/OpTransformCpu.h
@@ -18,6 +18,12 @@ namespace tinytorch::op {
 template <typename T>
 Tensor permuteOpCpuImpl(const Tensor& self, const IntArrayView dims) {
   ASSERT(static_cast<int64_t>(dims.size()) == self.dim());
+  DimArray<int64_t> used{};
+  for (auto d : dims) {
+    d = d < 0 ? d + self.dim() : d;
+    ASSERT(d >= 0 && d < self.dim() && used.data[d] == 0);
+    used.data[d] = 1;
+  }
   auto retShape = SizeVector(self.shape());
   reorderIndices(retShape.data(), self.dim(), dims);
   auto ret = Tensor::empty(retShape, self.options().noGrad());
-- 
2.43.0


From b4489fdb08e7b5ba34369c0da43a58ac605eec77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:32 +0000
Subject: [PATCH 32/78] fix: the gradient of sub takes alpha into account

---
 src/Function/FuncElemWise.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/Function/FuncElemWise.h b/src/Function/FuncElemWise.h
index 0ccbec0..f9fe750 100644
--- a/src/Function/FuncElemWise.h
+++ b/src/Function/FuncElemWise.h
@@ -90,6 +90,9 @@ class FuncAdd : public Function<FuncAdd> {
 class FuncSub : public Function<FuncSub> {
  public:
   static Tensor forward(AutogradContext* ctx, const Tensor& self, const Tensor& other, const Scalar& alpha) {
+    if (ctx) {
+      ctx->pushData(alpha);
+    }
     return op::sub(self, other, alpha);
   }
 
@@ -101,7 +104,8 @@ class FuncSub : public Function<FuncSub> {
       self.addGrad(reduceGrad(self, grad));
     }
     if (other.requiresGrad()) {
-      other.addGrad(reduceGrad(other, op::neg(grad)));
+      auto alpha = Tensor::scalar(ctx->savedData[0].toScalar(), grad.options().noGrad());
+      other.addGrad(reduceGrad(other, op::neg(op::mul(grad, alpha))));
     }
   }
 };
-- 
2.43.0


From 803f014c486191e86e92e044693f26ca6f36d924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:00 +0000
Subject: [PATCH 33/78] fix: an operand's gradient no longer aliases the
 gradient of the result

---
 src/Function/FuncElemWise.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Function/FuncElemWise.h b/src/Function/FuncElemWise.h
index f9fe750..e16c9fd 100644
--- a/src/Function/FuncElemWise.h
+++ b/src/Function/FuncElemWise.h
@@ -28,7 +28,7 @@ static Tensor reduceGrad(const Tensor& self, const Tensor& grad) {
   }
 
   if (dims.empty()) {
-    return grad;
+    return grad.clone();  // not an alias: later additions must not reach the incoming gradient
   }
 
   auto ret = op::sumOnDims(grad, dims, true);
-- 
2.43.0


From 8f94ec821c08a1195d41f6c974d5f8305a69538c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:24 +0000
Subject: [PATCH 34/78] fix: backward starts from clear gradients in non-leaf
 tensors

---
 src/Tensor/AutogradMeta.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/Tensor/AutogradMeta.cpp b/src/Tensor/AutogradMeta.cpp
index d913c5d..653c72e 100644
--- a/src/Tensor/AutogradMeta.cpp
+++ b/src/Tensor/AutogradMeta.cpp
@@ -67,6 +67,14 @@ void AutogradMeta::backward(const Tensor &grad) {
     buildBackwardGraph();
   }
 
+  // gradients left over in non-leaf tensors belong to an earlier pass
+  for (auto &func : backwardGraph_) {
+    auto owner = func->weakOwner.lock();
+    if (owner != nullptr && !owner->isLeaf()) {
+      owner->grad_ = {};
+    }
+  }
+
   addGrad(grad);
   for (auto &currFunc : backwardGraph_) {
     auto owner = currFunc->weakOwner.lock();
-- 
2.43.0


From ffdc7e7fc654905deb6f5746f2e8c1e5a0861e97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:03 +0000
Subject: [PATCH 35/78] fix: in-place operations on non-leaf tensors are
 recorded for backward

---
 src/Tensor/Tensor.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/Tensor/Tensor.cpp b/src/Tensor/Tensor.cpp
index bac3612..d2810b0 100644
--- a/src/Tensor/Tensor.cpp
+++ b/src/Tensor/Tensor.cpp
@@ -108,6 +108,12 @@ void Tensor::initAutogradMeta(const std::shared_ptr<FunctionBase> &fn) {
 }
 
 void Tensor::inplaceSet(Tensor &&val) {
+  if (val.requiresGrad() && !isLeaf()) {
+    // a recorded operation: the tensor takes over the history of its new value
+    impl_ = std::move(val.impl_);
+    gradMeta_ = std::move(val.gradMeta_);
+    return;
+  }
   auto reqGrad = requiresGrad();
   impl_ = std::move(val.impl_);
   impl_->options().requiresGrad(reqGrad);
-- 
2.43.0


From 9d181acf721d5d0b7ad4a8bfa9c131c1342fa6ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:13 +0000
Subject: [PATCH 36/78] fix: removing a hook leaves the ids of the others valid

---
 src/Tensor/AutogradMeta.cpp | 12 +++++++-----
 src/Tensor/AutogradMeta.h   |  3 ++-
 2 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/Tensor/AutogradMeta.cpp b/src/Tensor/AutogradMeta.cpp
index 653c72e..44d95b2 100644
--- a/src/Tensor/AutogradMeta.cpp
+++ b/src/Tensor/AutogradMeta.cpp
@@ -6,6 +6,7 @@
 
 #include "AutogradMeta.h"
 
+#include <algorithm>
 #include <queue>
 #include <set>
 
@@ -84,17 +85,18 @@ void AutogradMeta::backward(const Tensor &grad) {
 }
 
 int64_t AutogradMeta::registerHook(Hook::FnType fn, void *ctx) {
-  hooks_.push_back({fn, ctx});
-  return static_cast<int64_t>(hooks_.size() - 1);
+  hooks_.emplace_back(nextHookId_, Hook{fn, ctx});
+  return nextHookId_++;
 }
 
 void AutogradMeta::unregisterHook(int64_t hid) {
-  ASSERT(hid >= 0 && hid < static_cast<int64_t>(hooks_.size()));
-  hooks_.erase(hooks_.begin() + hid);
+  auto it = std::find_if(hooks_.begin(), hooks_.end(), [hid](const auto &h) { return h.first == hid; });
+  ASSERT(it != hooks_.end());
+  hooks_.erase(it);
 }
 
 void AutogradMeta::applyHooks() {
-  for (auto &h : hooks_) {
+  for (auto &[hid, h] : hooks_) {
     h.fn(h.ctx, grad_);
   }
 }
diff --git a/src/Tensor/AutogradMeta.h b/src/Tensor/AutogradMeta.h
index 805a465..65411ed 100644
--- a/src/Tensor/AutogradMeta.h
+++ b/src/Tensor/AutogradMeta.h
@@ -40,7 +40,8 @@ class AutogradMeta : public std::enable_shared_from_this<AutogradMeta> {
   Tensor grad_;
   std::shared_ptr<FunctionBase> gradFn_;
   std::vector<std::shared_ptr<FunctionBase>> backwardGraph_;
-  std::vector<Hook> hooks_;
+  std::vector<std::pair<int64_t, Hook>> hooks_;
+  int64_t nextHookId_ = 0;
 };
 
 }  // namespace tinytorch
-- 
2.43.0


From ed743b986c32c375521972d609c5878912ffca84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:17 +0000
Subject: [PATCH 37/78] fix: applying rotary embeddings refuses positions
 outside the table

---
 src/Operation/OpNNLayerCpu.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/Operation/OpNNLayerCpu.h b/src/Operation/OpNNLayerCpu.h
index 52c9c31..5b70fc7 100644
--- a/src/Operation/OpNNLayerCpu.h
+++ b/src/Operation/OpNNLayerCpu.h
@@ -324,6 +324,10 @@ Tensor ropeApplyOpCpuImpl(const Tensor& input, const Tensor& rope, int64_t offse
   ASSERT(headDim % 2 == 0);
   int64_t halfDim = headDim >> 1;
 
+  // [contextLength, headDim, 2]
+  ASSERT(rope.dim() == 3 && rope.shape(1) == headDim && rope.shape(2) == 2);
+  ASSERT(offset >= 0 && offset + seqLen <= rope.shape(0));
+
   const auto* inputPtr = input.dataPtr<T>();
   const auto* ropePtr = rope.dataPtr<T>();
 
-- 
2.43.0


From 085f2b2f0fb264bc02f07f32dbb0d36dfe58756a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:57 +0000
Subject: [PATCH 38/78] fix: dropping everything gives zeros, and attention
 drops with the given probability

---
 src/Function/FuncNNLayer.h   | 2 +-
 src/Operation/OpNNLayerCpu.h | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/Function/FuncNNLayer.h b/src/Function/FuncNNLayer.h
index baad305..65bd3ed 100644
--- a/src/Function/FuncNNLayer.h
+++ b/src/Function/FuncNNLayer.h
@@ -300,7 +300,7 @@ class FuncSDPAttention : public Function<FuncSDPAttention> {
     }
     attnWeight = op::softmax(attnWeight, -1);
     if (dropoutP > 0.f) {
-      attnWeight = op::dropout(attnWeight, dropoutP);
+      attnWeight = op::dropout(attnWeight, 1.f - dropoutP);
     }
     return op::matmul(attnWeight, value, false, false);
     // TODO fuse
diff --git a/src/Operation/OpNNLayerCpu.h b/src/Operation/OpNNLayerCpu.h
index 5b70fc7..b1f593a 100644
--- a/src/Operation/OpNNLayerCpu.h
+++ b/src/Operation/OpNNLayerCpu.h
@@ -165,7 +165,7 @@ Tensor dropoutOpCpuImpl(const Tensor& self, float p) {
   auto generator = RandomGeneratorCPU::getGenerator();
   std::bernoulli_distribution distribution(p);
   for (int64_t i = 0; i < self.numel(); i++) {
-    outPtr[i] = static_cast<T>(static_cast<float>(selfPtr[i]) * static_cast<float>(distribution(generator)) / p);
+    outPtr[i] = distribution(generator) ? static_cast<T>(static_cast<float>(selfPtr[i]) / p) : static_cast<T>(0.f);
   }
   return out;
 }
@@ -176,7 +176,7 @@ Tensor dropoutMaskedOpCpuImpl(const Tensor& self, const Tensor& mask, float p) {
   auto outShape = iterator.setupBroadcast();
   ASSERT(iterator.isBroadcastOk());
   Tensor out(outShape, self.options().noGrad());
-  iterator.template forEach<T>(out, [p](const T& a, const T& b) -> T { return a * b / p; });
+  iterator.template forEach<T>(out, [p](const T& a, const T& b) -> T { return p > 0.f ? static_cast<T>(a * b / p) : static_cast<T>(0.f); });
   return out;
 }
 
-- 
2.43.0


From 977e4857717568b702491d046de29495d9d34663 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:49 +0000
Subject: [PATCH 39/78] fix: random operations draw from one shared stream
 instead of repeating copies of it

---
 src/Operation/OpFillingCpu.h  | 6 +++---
 src/Operation/OpNNLayerCpu.h  | 2 +-
 src/Operation/OpSamplingCpu.h | 2 +-
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/Operation/OpFillingCpu.h b/src/Operation/OpFillingCpu.h
index f64bc75..44d7941 100644
--- a/src/Operation/OpFillingCpu.h
+++ b/src/Operation/OpFillingCpu.h
@@ -79,7 +79,7 @@ template <typename T>
 void fillOpRandUniformCpuImpl(Tensor& self, float min, float max) {
   self.copyOnWrite();
   auto* selfPtr = self.dataPtr<T>();
-  auto generator = RandomGeneratorCPU::getGenerator();
+  auto& generator = RandomGeneratorCPU::getGenerator();
   std::uniform_real_distribution distribution(min, max);
   for (int64_t i = 0; i < self.numel(); i++) {
     selfPtr[i] = static_cast<T>(distribution(generator));
@@ -90,7 +90,7 @@ template <typename T>
 void fillOpRandNormalCpuImpl(Tensor& self, float mean, float stddev) {
   self.copyOnWrite();
   auto* selfPtr = self.dataPtr<T>();
-  auto generator = RandomGeneratorCPU::getGenerator();
+  auto& generator = RandomGeneratorCPU::getGenerator();
   std::normal_distribution distribution(mean, stddev);
   for (int64_t i = 0; i < self.numel(); i++) {
     selfPtr[i] = static_cast<T>(distribution(generator));
@@ -101,7 +101,7 @@ template <typename T>
 void fillOpRandBernoulliCpuImpl(Tensor& self, float p) {
   self.copyOnWrite();
   auto* selfPtr = self.dataPtr<T>();
-  auto generator = RandomGeneratorCPU::getGenerator();
+  auto& generator = RandomGeneratorCPU::getGenerator();
   std::bernoulli_distribution distribution(p);
   for (int64_t i = 0; i < self.numel(); i++) {
     selfPtr[i] = static_cast<T>(distribution(generator));
diff --git a/src/Operation/OpNNLayerCpu.h b/src/Operation/OpNNLayerCpu.h
index b1f593a..e432b72 100644
--- a/src/Operation/OpNNLayerCpu.h
+++ b/src/Operation/OpNNLayerCpu.h
@@ -162,7 +162,7 @@ Tensor dropoutOpCpuImpl(const Tensor& self, float p) {
   Tensor out(self.shape(), self.options().noGrad());
   const auto* selfPtr = self.dataPtr<T>();
   auto* outPtr = out.dataPtr<T>();
-  auto generator = RandomGeneratorCPU::getGenerator();
+  auto& generator = RandomGeneratorCPU::getGenerator();
   std::bernoulli_distribution distribution(p);
   for (int64_t i = 0; i < self.numel(); i++) {
     outPtr[i] = distribution(generator) ? static_cast<T>(static_cast<float>(selfPtr[i]) / p) : static_cast<T>(0.f);
diff --git a/src/Operation/OpSamplingCpu.h b/src/Operation/OpSamplingCpu.h
index 1407625..26597e2 100644
--- a/src/Operation/OpSamplingCpu.h
+++ b/src/Operation/OpSamplingCpu.h
@@ -88,7 +88,7 @@ Tensor multinomialOpCpuImpl(const Tensor& self, int64_t numSamples, bool replace
   const T* selfPtr = self.dataPtr<T>();
   auto* retPtr = ret.dataPtr<int64_t>();
 
-  auto generator = RandomGeneratorCPU::getGenerator();
+  auto& generator = RandomGeneratorCPU::getGenerator();
   std::uniform_real_distribution<float> dist(0.f, 1.f);
 
   for (int64_t b = 0; b < batch; b++) {
-- 
2.43.0


From 20a8a19bd5a4092fcbe66f68a1c656309eaeb821 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:16 +0000
Subject: [PATCH 40/78] fix: samplers no longer reseed the shared random stream

---
 src/Data/Sampler.h                     | 3 +--
 src/Distributed/DistributedSampler.cpp | 3 +--
 2 files changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/Data/Sampler.h b/src/Data/Sampler.h
index 8ee1d47..8062c35 100644
--- a/src/Data/Sampler.h
+++ b/src/Data/Sampler.h
@@ -53,8 +53,7 @@ class RandomSampler : public Sampler {
     indices_.resize(datasetSize_);
     std::iota(indices_.begin(), indices_.end(), 0);
 
-    auto& gen = RandomGeneratorCPU::getGenerator();
-    gen.seed(static_cast<unsigned int>(seed_ + epoch_));
+    std::default_random_engine gen(static_cast<unsigned int>(seed_ + epoch_));
     std::shuffle(indices_.begin(), indices_.end(), gen);
   }
 
diff --git a/src/Distributed/DistributedSampler.cpp b/src/Distributed/DistributedSampler.cpp
index 8963521..160e0a0 100644
--- a/src/Distributed/DistributedSampler.cpp
+++ b/src/Distributed/DistributedSampler.cpp
@@ -41,8 +41,7 @@ void DistributedSampler::generateIndices() {
   std::iota(allIndices.begin(), allIndices.end(), 0);
 
   if (shuffle_) {
-    auto& gen = RandomGeneratorCPU::getGenerator();
-    gen.seed(static_cast<unsigned int>(seed_ + epoch_));
+    std::default_random_engine gen(static_cast<unsigned int>(seed_ + epoch_));
     std::shuffle(allIndices.begin(), allIndices.end(), gen);
   }
 
-- 
2.43.0


From 912cd65eb5b4603e88e115c14b7917530fd0a0ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:23 +0000
Subject: [PATCH 41/78] fix: batch and sample counts are exact for any dataset
 size

---
 src/Data/DataLoader.h                  | 2 +-
 src/Distributed/DistributedSampler.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Data/DataLoader.h b/src/Data/DataLoader.h
index f0b7be8..35eeca6 100644
--- a/src/Data/DataLoader.h
+++ b/src/Data/DataLoader.h
@@ -31,7 +31,7 @@ class DataLoader {
     if (dropLast) {
       batchCnt_ = indices_.size() / batchSize;
     } else {
-      batchCnt_ = std::ceil(static_cast<float>(indices_.size()) * 1.0f / static_cast<float>(batchSize));
+      batchCnt_ = (indices_.size() + batchSize - 1) / batchSize;
     }
   }
 
diff --git a/src/Distributed/DistributedSampler.cpp b/src/Distributed/DistributedSampler.cpp
index 160e0a0..689e934 100644
--- a/src/Distributed/DistributedSampler.cpp
+++ b/src/Distributed/DistributedSampler.cpp
@@ -30,7 +30,7 @@ DistributedSampler::DistributedSampler(size_t datasetSize, std::optional<size_t>
   if (dropLast_) {
     numSamples_ = datasetSize_ / numReplicas_;
   } else {
-    numSamples_ = std::ceil(static_cast<float>(datasetSize_) * 1.0f / static_cast<float>(numReplicas_));
+    numSamples_ = (datasetSize_ + numReplicas_ - 1) / numReplicas_;
   }
   totalSize_ = numSamples_ * numReplicas_;
   generateIndices();
-- 
2.43.0


From 180496230b67903887011c80efa5ccbbe819bece Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:24 +0000
Subject: [PATCH 42/78] fix: the distributed sampler pads datasets smaller than
 the padding

---
 src/Distributed/DistributedSampler.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/Distributed/DistributedSampler.cpp b/src/Distributed/DistributedSampler.cpp
index 689e934..f998264 100644
--- a/src/Distributed/DistributedSampler.cpp
+++ b/src/Distributed/DistributedSampler.cpp
@@ -46,9 +46,10 @@ void DistributedSampler::generateIndices() {
   }
 
   if (!dropLast_) {
-    if (allIndices.size() < totalSize_) {
-      allIndices.insert(allIndices.end(), allIndices.begin(),
-                        allIndices.begin() + static_cast<int64_t>(totalSize_ - allIndices.size()));
+    // pad by repeating from the start, more than once if needed
+    allIndices.reserve(totalSize_);
+    for (size_t i = 0; allIndices.size() < totalSize_; i++) {
+      allIndices.push_back(allIndices[i]);
     }
   } else {
     allIndices.resize(totalSize_);
-- 
2.43.0


From a8bc8a67c8f55a0705c9f450d90675fd022be576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:40 +0000
Subject: [PATCH 43/78] fix: the gradient of an operand broadcast by leading
 ones keeps the operand's shape

---
 src/Function/FuncElemWise.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/Function/FuncElemWise.h b/src/Function/FuncElemWise.h
index e16c9fd..2e39d07 100644
--- a/src/Function/FuncElemWise.h
+++ b/src/Function/FuncElemWise.h
@@ -28,6 +28,9 @@ static Tensor reduceGrad(const Tensor& self, const Tensor& grad) {
   }
 
   if (dims.empty()) {
+    if (self.shape() != grad.shape()) {
+      return op::reshape(grad, self.shape());
+    }
     return grad.clone();  // not an alias: later additions must not reach the incoming gradient
   }
 
-- 
2.43.0


From ee87b8f91ff9fba0f5be29d79b675011e4dbc035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:04 +0000
Subject: [PATCH 44/78] fix: dropout in evaluation mode works while recording
 is disabled

---
 src/Function/FuncNNLayer.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/Function/FuncNNLayer.h b/src/Function/FuncNNLayer.h
index 65bd3ed..fe59ded 100644
--- a/src/Function/FuncNNLayer.h
+++ b/src/Function/FuncNNLayer.h
@@ -52,7 +52,9 @@ class FuncDropout : public Function<FuncDropout> {
       ctx->pushData(training);
     }
     if (!training) {
-      return input.clone();
+      auto output = input.clone();
+      output.setRequiresGrad(false);  // a plain result, whatever the input's flag
+      return output;
     }
     auto mask = Tensor::bernoulli(input.shape(), 1.f - p, input.options().noGrad());
     auto output = op::dropoutMasked(input, mask, 1.f - p);
-- 
2.43.0


From 371f4463136b01040f9d55bb118a48e27c003347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:09 +0000
Subject: [PATCH 45/78] fix: centered RMSprop divides by the root of the
 centered second moment

---
 src/Optimizer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Optimizer.cpp b/src/Optimizer.cpp
index b3c4a11..e09b73f 100644
--- a/src/Optimizer.cpp
+++ b/src/Optimizer.cpp
@@ -134,7 +134,7 @@ void RMSprop::doStep() {
     if (centered_) {
       auto &g = gradAvg_[i];
       g = alpha_ * g + (1.f - alpha_) * grad;
-      avg = v - g * g;
+      avg = (v - g * g).sqrt();
     } else {
       avg = v.sqrt();
     }
-- 
2.43.0


From 004bf30624168405240689d8d660bac27b08dae7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:14 +0000
Subject: [PATCH 46/78] fix: AdamW leaves parameters without a gradient
 unchanged

---
 src/Optimizer.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/Optimizer.cpp b/src/Optimizer.cpp
index e09b73f..f402697 100644
--- a/src/Optimizer.cpp
+++ b/src/Optimizer.cpp
@@ -215,8 +215,11 @@ AdamW::AdamW(std::vector<TensorPtr> &&parameters, float lr, const std::pair<floa
     : Adam(std::move(parameters), lr, betas, eps, weightDecay, amsGrad) {}
 
 Tensor AdamW::getDecayedGrad(TensorPtr param) const {
-  *param *= (1.f - lr_ * weightDecay_);
-  return param->grad();
+  auto ret = param->grad();
+  if (ret.defined()) {
+    *param *= (1.f - lr_ * weightDecay_);
+  }
+  return ret;
 }
 
 }  // namespace tinytorch::optim
-- 
2.43.0


From 9b0f7fca21362049efa7119e42ac67656bc825a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:54 +0000
Subject: [PATCH 47/78] fix: saving a model reports a write that failed

---
 src/Serializer.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/Serializer.cpp b/src/Serializer.cpp
index 39dfa65..b06ab77 100644
--- a/src/Serializer.cpp
+++ b/src/Serializer.cpp
@@ -74,6 +74,10 @@ bool Serializer::save(nn::Module& module, const std::string& path) {
   }
 
   ofs.close();
+  if (ofs.fail()) {
+    LOGE("Error write file: %s", path.c_str());
+    return false;
+  }
   return true;
 }
 
-- 
2.43.0


From 89a690dc719e7fa8e4034b7b40d04720696209e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:57 +0000
Subject: [PATCH 48/78] fix: loading a model leaves clones of its tensors
 unchanged

---
 src/Serializer.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/Serializer.cpp b/src/Serializer.cpp
index b06ab77..8cb8af1 100644
--- a/src/Serializer.cpp
+++ b/src/Serializer.cpp
@@ -178,6 +178,7 @@ bool Serializer::load(nn::Module& module, const std::string& path, bool strict)
     }
 
     // copy data
+    tensor->copyOnWrite();
     const void* tensorDataPtr = dataPtr + header->dataOffset;
     Storage::copyOnDevice(tensor->dataPtr<>(), tensor->device(), tensorDataPtr, Device::cpu(),
                           static_cast<int64_t>(header->dataSize));
-- 
2.43.0


From ca18839630507a2b6327fca56d8b4bab365391e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:02 +0000
Subject: [PATCH 49/78] fix: loading a damaged model file never reads outside
 the file

---
 src/Serializer.cpp | 67 +++++++++++++++++++++++++++++-----------------
 1 file changed, 42 insertions(+), 25 deletions(-)

diff --git a/src/Serializer.cpp b/src/Serializer.cpp
index 8cb8af1..a996c53 100644
--- a/src/Serializer.cpp
+++ b/src/Serializer.cpp
@@ -6,6 +6,7 @@
 
 #include "Serializer.h"
 
+#include <cstring>
 #include <fstream>
 #include <vector>
 
@@ -91,49 +92,65 @@ bool Serializer::load(nn::Module& module, const std::string& path, bool strict)
   const char* dataPtr = static_cast<const char*>(mappingResult.dataPtr);
   size_t offset = 0;
 
-  // read header
-  uint64_t magic = *reinterpret_cast<const uint64_t*>(dataPtr + offset);
-  offset += sizeof(magic);
+  // every read stays within the file
+  auto readBytes = [&](void* dst, size_t size) {
+    if (size > mappingResult.fileSize - offset) {
+      return false;
+    }
+    memcpy(dst, dataPtr + offset, size);
+    offset += size;
+    return true;
+  };
 
-  if (magic != MAGIC_NUMBER) {
+  // read header
+  uint64_t magic = 0;
+  if (!readBytes(&magic, sizeof(magic)) || magic != MAGIC_NUMBER) {
     LOGE("Invalid magic number in file: %s", path.c_str());
     MMapUtils::unmapFile(mappingResult);
     return false;
   }
 
-  uint64_t version = *reinterpret_cast<const uint64_t*>(dataPtr + offset);
-  offset += sizeof(version);
-
-  if (version != VERSION) {
-    LOGE("Unsupported version %u in file: %s", version, path.c_str());
+  uint64_t version = 0;
+  if (!readBytes(&version, sizeof(version)) || version != VERSION) {
+    LOGE("Unsupported version %llu in file: %s", static_cast<unsigned long long>(version), path.c_str());
     MMapUtils::unmapFile(mappingResult);
     return false;
   }
 
-  uint64_t tensorCount = *reinterpret_cast<const uint64_t*>(dataPtr + offset);
-  offset += sizeof(tensorCount);
+  uint64_t tensorCount = 0;
+  bool success = readBytes(&tensorCount, sizeof(tensorCount));
 
   ankerl::unordered_dense::map<std::string, TensorPtr> name2tensor;
   for (const auto& [name, tensor] : module.namedStates()) {
     name2tensor[name] = tensor;
   }
 
-  bool success = true;
   ankerl::unordered_dense::set<std::string> fileKeys;
   // read tensors
   for (uint64_t i = 0; i < tensorCount; i++) {
-    const auto* header = reinterpret_cast<const TensorHeader*>(dataPtr + offset);
-    offset += sizeof(TensorHeader);
+    TensorHeader header{};
+    if (!readBytes(&header, sizeof(header)) || header.nameLength > mappingResult.fileSize - offset) {
+      LOGE("Truncated tensor header in file: %s", path.c_str());
+      success = false;
+      break;
+    }
+
+    std::string name(dataPtr + offset, header.nameLength);
+    offset += header.nameLength;
+
+    if (header.ndim > (mappingResult.fileSize - offset) / sizeof(int64_t)) {
+      LOGE("Truncated tensor shape in file: %s", path.c_str());
+      success = false;
+      break;
+    }
 
-    std::string name(dataPtr + offset, header->nameLength);
-    offset += header->nameLength;
     fileKeys.insert(name);
 
     SizeVector shape;
-    for (uint64_t j = 0; j < header->ndim; j++) {
-      int64_t dim = *reinterpret_cast<const int64_t*>(dataPtr + offset);
+    for (uint64_t j = 0; j < header.ndim; j++) {
+      int64_t dim = 0;
+      readBytes(&dim, sizeof(dim));
       shape.pushBack(dim);
-      offset += sizeof(int64_t);
     }
 
     auto iter = name2tensor.find(name);
@@ -155,8 +172,7 @@ bool Serializer::load(nn::Module& module, const std::string& path, bool strict)
     }
 
     // check dtype
-    auto dtype = static_cast<DType>(header->dtype);
-    if (dtype != tensor->dtype()) {
+    if (header.dtype != static_cast<uint64_t>(tensor->dtype())) {
       LOGE("dtype not equal for tensor: %s", name.c_str());
       success = false;
       continue;
@@ -164,14 +180,15 @@ bool Serializer::load(nn::Module& module, const std::string& path, bool strict)
 
     // check dataSize
     size_t expectedSize = tensor->numel() * dtypeSize(tensor->dtype());
-    if (header->dataSize != expectedSize) {
+    if (header.dataSize != expectedSize) {
       LOGE("size not equal for tensor: %s", name.c_str());
       success = false;
       continue;
     }
 
     // check dataOffset
-    if (header->dataOffset + header->dataSize > mappingResult.fileSize) {
+    if (header.dataOffset > mappingResult.fileSize ||
+        header.dataSize > mappingResult.fileSize - header.dataOffset) {
       LOGE("Tensor data out of file range: %s", name.c_str());
       success = false;
       continue;
@@ -179,9 +196,9 @@ bool Serializer::load(nn::Module& module, const std::string& path, bool strict)
 
     // copy data
     tensor->copyOnWrite();
-    const void* tensorDataPtr = dataPtr + header->dataOffset;
+    const void* tensorDataPtr = dataPtr + header.dataOffset;
     Storage::copyOnDevice(tensor->dataPtr<>(), tensor->device(), tensorDataPtr, Device::cpu(),
-                          static_cast<int64_t>(header->dataSize));
+                          static_cast<int64_t>(header.dataSize));
   }
 
   // check missing keys
-- 
2.43.0


From 826ff914bae277f8f7267132aa0a09073c24ec4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:39 +0000
Subject: [PATCH 50/78] fix: one batch holds everything when the batch size
 exceeds any dataset

---
 src/Data/DataLoader.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Data/DataLoader.h b/src/Data/DataLoader.h
index 35eeca6..f946d47 100644
--- a/src/Data/DataLoader.h
+++ b/src/Data/DataLoader.h
@@ -31,7 +31,7 @@ class DataLoader {
     if (dropLast) {
       batchCnt_ = indices_.size() / batchSize;
     } else {
-      batchCnt_ = (indices_.size() + batchSize - 1) / batchSize;
+      batchCnt_ = indices_.size() / batchSize + (indices_.size() % batchSize != 0 ? 1 : 0);
     }
   }
 
-- 
2.43.0


From e6087008ba4a21dbe462999261791c25de8d5d13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:45 +0000
Subject: [PATCH 51/78] fix: malformed MNIST files are refused instead of read
 past their end

---
 src/Data/DatasetMNIST.cpp | 59 ++++++++++++++++++++++++---------------
 src/Data/DatasetMNIST.h   |  4 +++
 2 files changed, 40 insertions(+), 23 deletions(-)

diff --git a/src/Data/DatasetMNIST.cpp b/src/Data/DatasetMNIST.cpp
index 5c814d0..0a60d9c 100644
--- a/src/Data/DatasetMNIST.cpp
+++ b/src/Data/DatasetMNIST.cpp
@@ -43,34 +43,45 @@ int32_t DatasetMNIST::toInt32(const char* p) {
   return ((p[0] & 0xff) << 24) | ((p[1] & 0xff) << 16) | ((p[2] & 0xff) << 8) | ((p[3] & 0xff) << 0);
 }
 
+int32_t DatasetMNIST::readInt32(std::ifstream& ifs) {
+  char p[4] = {};
+  ifs.read(p, 4);
+  return toInt32(p);
+}
+
+int64_t DatasetMNIST::remainingBytes(std::ifstream& ifs) {
+  auto pos = ifs.tellg();
+  ifs.seekg(0, std::ios::end);
+  auto end = ifs.tellg();
+  ifs.seekg(pos);
+  return static_cast<int64_t>(end - pos);
+}
+
 void DatasetMNIST::loadImages(const std::string& path) {
   std::ifstream ifs(path.c_str(), std::ios::in | std::ios::binary);
   if (!ifs.is_open()) {
     LOGE("failed to load images from %s", path.c_str());
     return;
   }
-  char p[4];
-
-  ifs.read(p, 4);
-  auto magicNumber = toInt32(p);
+  auto magicNumber = readInt32(ifs);
   ASSERT(magicNumber == 0x803);
 
-  ifs.read(p, 4);
-  auto size = toInt32(p);
-  images_.resize(size);
-
-  ifs.read(p, 4);
-  height_ = toInt32(p);
-
-  ifs.read(p, 4);
-  width_ = toInt32(p);
+  auto size = readInt32(ifs);
+  height_ = readInt32(ifs);
+  width_ = readInt32(ifs);
+  auto imageBytes = static_cast<int64_t>(height_) * width_;
+  if (!ifs || size < 0 || height_ <= 0 || width_ <= 0 || remainingBytes(ifs) / imageBytes < size) {
+    LOGE("invalid image file %s", path.c_str());
+    return;
+  }
 
-  char* tmp = new char[height_ * width_];
+  images_.resize(size);
+  char* tmp = new char[imageBytes];
   for (int32_t i = 0; i < size; ++i) {
-    images_[i].resize(height_ * width_);
-    ifs.read(tmp, height_ * width_);
+    images_[i].resize(imageBytes);
+    ifs.read(tmp, imageBytes);
     float* dataPtr = &images_[i][0];
-    for (int32_t j = 0; j < height_ * width_; ++j) {
+    for (int64_t j = 0; j < imageBytes; ++j) {
       auto d = static_cast<uint8_t>(tmp[j]);
       dataPtr[j] = static_cast<float>(d) / 255.0f;
     }
@@ -86,15 +97,17 @@ void DatasetMNIST::loadLabels(const std::string& path) {
     LOGE("failed to load labels from %s", path.c_str());
     return;
   }
-  char p[4];
-
-  ifs.read(p, 4);
-  auto magicNumber = toInt32(p);
+  auto magicNumber = readInt32(ifs);
   ASSERT(magicNumber == 0x801);
 
-  ifs.read(p, 4);
-  auto size = toInt32(p);
+  auto size = readInt32(ifs);
+  if (!ifs || size < 0 || remainingBytes(ifs) < size) {
+    LOGE("invalid label file %s", path.c_str());
+    return;
+  }
+
   labels_.resize(size);
+  char p[1];
   for (int32_t i = 0; i < size; ++i) {
     ifs.read(p, 1);
     labels_[i] = static_cast<unsigned char>(p[0]);
diff --git a/src/Data/DatasetMNIST.h b/src/Data/DatasetMNIST.h
index 5004056..4ff3a02 100644
--- a/src/Data/DatasetMNIST.h
+++ b/src/Data/DatasetMNIST.h
@@ -6,6 +6,8 @@
 
 #pragma once
 
+#include <fstream>
+
 #include "Dataset.h"
 #include "Transform.h"
 
@@ -25,6 +27,8 @@ class DatasetMNIST : public Dataset {
 
  private:
   static int32_t toInt32(const char* p);
+  static int32_t readInt32(std::ifstream& ifs);
+  static int64_t remainingBytes(std::ifstream& ifs);
   void loadImages(const std::string& path);
   void loadLabels(const std::string& path);
 
-- 
2.43.0


From e41630819466534f576d6764a7da3a892eb2fa03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:10 +0000
Subject: [PATCH 52/78] fix: integer arange counts a last partial step, and an
 empty range is empty

---
 src/Tensor/Tensor.h | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/Tensor/Tensor.h b/src/Tensor/Tensor.h
index bad7ef0..f50a273 100644
--- a/src/Tensor/Tensor.h
+++ b/src/Tensor/Tensor.h
@@ -327,7 +327,15 @@ Tensor::Tensor(const Array3d<T>& values) : Tensor(values, options::dtype(TypeToD
 template <typename T>
 Tensor Tensor::arange(T start, T stop, T step, Options options) {
   options.dtype(TypeToDType_v<T>);
-  auto steps = static_cast<int64_t>(std::ceil((stop - start) / step));
+  int64_t steps;
+  if constexpr (std::is_integral_v<T>) {
+    // integer division drops a last partial step
+    auto span = static_cast<int64_t>(stop) - static_cast<int64_t>(start);
+    steps = span / step + ((span % step != 0 && (span > 0) == (step > 0)) ? 1 : 0);
+  } else {
+    steps = static_cast<int64_t>(std::ceil((stop - start) / step));
+  }
+  steps = steps < 0 ? 0 : steps;
   Tensor ret({steps}, options);
   ret.fillLinSpace_(start, step, steps);
   return ret;
-- 
2.43.0


From af6c9a40754dd6a6ee02640785b9ae643fcfffec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:18 +0000
Subject: [PATCH 53/78] fix: multinomial never draws an index past the last
 category

---
 src/Operation/OpSamplingCpu.h | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/Operation/OpSamplingCpu.h b/src/Operation/OpSamplingCpu.h
index 26597e2..61647a1 100644
--- a/src/Operation/OpSamplingCpu.h
+++ b/src/Operation/OpSamplingCpu.h
@@ -6,6 +6,8 @@
 
 #pragma once
 
+#include <algorithm>
+#include <cmath>
 #include <numeric>
 
 #include "OpSampling.h"
@@ -82,6 +84,7 @@ Tensor multinomialOpCpuImpl(const Tensor& self, int64_t numSamples, bool replace
 
   Tensor ret = Tensor::empty(retShape, self.options().noGrad().indices());
   if (n == 0) {
+    ASSERT(ret.numel() == 0);
     return ret;
   }
 
@@ -107,10 +110,14 @@ Tensor multinomialOpCpuImpl(const Tensor& self, int64_t numSamples, bool replace
       std::vector<float> cdf(n);
       std::partial_sum(prob.begin(), prob.end(), cdf.begin());
       float total = cdf.back();
-      ASSERT(total > 0);
+      ASSERT(total > 0 && std::isfinite(total));
 
       float r = dist(generator) * total;
       auto it = std::upper_bound(cdf.begin(), cdf.end(), r);
+      if (it == cdf.end()) {
+        // r rounded up to the total: take the last category with weight
+        it = std::lower_bound(cdf.begin(), cdf.end(), total);
+      }
       int64_t idx = std::distance(cdf.begin(), it);
 
       if (self.dim() == 2) {
-- 
2.43.0


From 3a15dc69134aba64d397d73b95fea45a2647138d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:58 +0000
Subject: [PATCH 54/78] fix: SmallVector takes a copy of a value that may be
 its own element

---
 src/Utils/VectorUtils.h | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/Utils/VectorUtils.h b/src/Utils/VectorUtils.h
index c02051c..d1848cc 100644
--- a/src/Utils/VectorUtils.h
+++ b/src/Utils/VectorUtils.h
@@ -122,9 +122,13 @@ class SmallVector {
   template <typename... Args>
   void pushBack(Args&&... args) {
     if (size_ == capacity_) {
+      // the arguments may refer to an element that growing releases
+      T value(std::forward<Args>(args)...);
       grow();
+      new (data_ + size_) T(std::move(value));
+    } else {
+      new (data_ + size_) T(std::forward<Args>(args)...);
     }
-    new (data_ + size_) T(std::forward<Args>(args)...);
     size_++;
   }
 
@@ -153,14 +157,16 @@ class SmallVector {
     if (size < size_) {
       std::destroy(data_ + size, data_ + size_);
     } else if (size > size_) {
+      T copy(value);  // value may refer to an element that growing releases
       reserve(size);
-      std::uninitialized_fill_n(data_ + size_, size - size_, value);
+      std::uninitialized_fill_n(data_ + size_, size - size_, copy);
     }
     size_ = size;
   }
 
   T* insert(T* pos, const T& value) {
     size_type idx = pos - data_;
+    T copy(value);  // value may refer to an element that growing or shifting changes
     if (size_ == capacity_) {
       grow();
     }
@@ -169,9 +175,9 @@ class SmallVector {
       for (size_type i = size_ - 1; i > idx; i--) {
         data_[i] = std::move(data_[i - 1]);
       }
-      data_[idx] = value;
+      data_[idx] = std::move(copy);
     } else {
-      new (data_ + size_) T(value);
+      new (data_ + size_) T(std::move(copy));
     }
     size_++;
     return data_ + idx;
-- 
2.43.0


From a8e2f9e2bd9b18cb322100ee782ec6a0819bbd7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:11 +0000
Subject: [PATCH 55/78] fix: FileStore operations of several processes exclude
 each other

---
 src/Distributed/FileStore.cpp | 49 +++++++++++++++++++++--------------
 src/Distributed/FileStore.h   |  1 +
 2 files changed, 31 insertions(+), 19 deletions(-)

diff --git a/src/Distributed/FileStore.cpp b/src/Distributed/FileStore.cpp
index 82326d2..e434454 100644
--- a/src/Distributed/FileStore.cpp
+++ b/src/Distributed/FileStore.cpp
@@ -14,7 +14,9 @@
 #include <unistd.h>
 
 #include <algorithm>
+#include <cerrno>
 #include <iostream>
+#include <memory>
 #include <thread>
 
 #include "Utils/Logger.h"
@@ -30,13 +32,13 @@ class FileLock {
       return;
     }
 
-    struct flock fl {};
-    fl.l_type = F_WRLCK;
-    fl.l_whence = SEEK_SET;
-    fl.l_start = 0;
-    fl.l_len = 0;
-    if (fcntl(fd_, F_SETLKW, &fl) == -1) {
-      LOGE("FileStore: fcntl lock failed for path: %s", path.c_str());
+    // flock rather than fcntl: a record lock is dropped as soon as the process closes any descriptor of the file
+    int result = 0;
+    do {
+      result = flock(fd_, LOCK_EX);
+    } while (result == -1 && errno == EINTR);
+    if (result == -1) {
+      LOGE("FileStore: flock failed for path: %s", path.c_str());
       close(fd_);
       fd_ = -1;
     }
@@ -44,12 +46,7 @@ class FileLock {
 
   ~FileLock() {
     if (fd_ != -1) {
-      struct flock fl {};
-      fl.l_type = F_UNLCK;
-      fl.l_whence = SEEK_SET;
-      fl.l_start = 0;
-      fl.l_len = 0;
-      fcntl(fd_, F_SETLK, &fl);
+      flock(fd_, LOCK_UN);
       close(fd_);
     }
   }
@@ -70,9 +67,15 @@ FileStore::FileStore(std::string path) : path_(std::move(path)) {
 
 std::string FileStore::getKeyPath(const std::string& key) const { return path_ + "/" + key; }
 
+// One lock for the whole store, beside its directory: locking the key files themselves would create them.
+std::string FileStore::getLockPath() const {
+  auto end = path_.find_last_not_of('/');
+  return (end == std::string::npos ? path_ : path_.substr(0, end + 1)) + ".lock";
+}
+
 void FileStore::set(const std::string& key, const std::vector<uint8_t>& value) {
   const auto path = getKeyPath(key);
-  FileLock lock(path);
+  FileLock lock(getLockPath());
   if (!lock.isValid()) {
     LOGE("FileStore: lock failed for path: %s", path.c_str());
     return;
@@ -100,7 +103,16 @@ std::vector<uint8_t> FileStore::get(const std::string& key) {
   auto start = std::chrono::steady_clock::now();
   bool hasTimeout = (timeout != kNoTimeout);
 
-  while (!checkKey(key)) {
+  std::unique_ptr<FileLock> lock;
+  while (true) {
+    if (checkKey(key)) {
+      lock = std::make_unique<FileLock>(getLockPath());
+      if (!lock->isValid() || checkKey(key)) {
+        break;
+      }
+      lock.reset();  // deleted in the meantime
+    }
+
     if (hasTimeout) {
       auto now = std::chrono::steady_clock::now();
       if (now - start > timeout) {
@@ -111,8 +123,7 @@ std::vector<uint8_t> FileStore::get(const std::string& key) {
     std::this_thread::sleep_for(std::chrono::milliseconds(10));
   }
 
-  FileLock lock(path);
-  if (!lock.isValid()) {
+  if (!lock->isValid()) {
     LOGE("FileStore: lock failed for path: %s", path.c_str());
     return {};
   }
@@ -158,7 +169,7 @@ std::vector<uint8_t> FileStore::get(const std::string& key) {
 
 int64_t FileStore::add(const std::string& key, int64_t value) {
   const auto path = getKeyPath(key);
-  FileLock lock(path);
+  FileLock lock(getLockPath());
   if (!lock.isValid()) {
     LOGE("FileStore: lock failed for path: %s", path.c_str());
     return 0;
@@ -194,7 +205,7 @@ int64_t FileStore::add(const std::string& key, int64_t value) {
 
 bool FileStore::deleteKey(const std::string& key) {
   const auto path = getKeyPath(key);
-  FileLock lock(path);
+  FileLock lock(getLockPath());
   if (!lock.isValid()) {
     LOGE("FileStore: lock failed for path: %s", path.c_str());
     return false;
diff --git a/src/Distributed/FileStore.h b/src/Distributed/FileStore.h
index f5edd72..221c4e6 100644
--- a/src/Distributed/FileStore.h
+++ b/src/Distributed/FileStore.h
@@ -28,6 +28,7 @@ class FileStore : public Store {
 
  private:
   std::string getKeyPath(const std::string& key) const;
+  std::string getLockPath() const;
   bool checkKey(const std::string& key) const;
 
   std::string path_;
-- 
2.43.0


From c6d6a04477d56ac9b3da12121d2fd10fd6c96bf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:12 +0000
Subject: [PATCH 56/78] fix: the Reducer does not wait for parameters without
 gradients

---
 src/Distributed/Reducer.cpp | 15 +++++++++++++--
 src/Distributed/Reducer.h   |  1 +
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/Distributed/Reducer.cpp b/src/Distributed/Reducer.cpp
index 367a69f..5aecc4e 100644
--- a/src/Distributed/Reducer.cpp
+++ b/src/Distributed/Reducer.cpp
@@ -86,6 +86,10 @@ void Reducer::registerHooks() {
     for (int64_t pIdx = 0; pIdx < static_cast<int64_t>(bucket.params.size()); pIdx++) {
       auto& param = bucket.params[pIdx];
       ASSERT(param != nullptr);
+      if (!param->requiresGrad()) {
+        continue;  // never gets a gradient, so there is nothing to wait for
+      }
+      bucket.gradCount++;
 
       auto ctx = std::make_unique<ParameterHookCtx>();
       ctx->self = this;
@@ -110,7 +114,7 @@ void Reducer::onGradReady(int64_t bucketIdx, int64_t paramIdx, const Tensor& gra
   bucket.readyCount++;
 
   ASSERT(!bucket.reduceStarted);
-  if (bucket.readyCount == static_cast<int64_t>(bucket.params.size())) {
+  if (bucket.readyCount == bucket.gradCount) {
     bucket.reduceStarted = true;
     reduceBucket(bucketIdx);
   }
@@ -158,7 +162,8 @@ void Reducer::broadcastParameters(int rootRank) const {
 }
 
 void Reducer::checkAllBucketsReady() {
-  if (bucketReadyCnt_ < static_cast<int64_t>(buckets_.size())) {
+  auto gradBuckets = std::count_if(buckets_.begin(), buckets_.end(), [](const Bucket& b) { return b.gradCount > 0; });
+  if (bucketReadyCnt_ < static_cast<int64_t>(gradBuckets)) {
     return;
   }
 
@@ -210,6 +215,9 @@ void Reducer::copyGradsToFlattenedBuffer(int64_t bucketIdx) const {
   for (int64_t i = 0; i < static_cast<int64_t>(bucket.params.size()); i++) {
     ASSERT(bucket.params[i] != nullptr);
     ASSERT(bucket.params[i]->defined());
+    if (!bucket.params[i]->requiresGrad()) {
+      continue;
+    }
     auto& grad = bucket.params[i]->grad();
     ASSERT(grad.defined());
     bucket.flatBuffer.narrow(0, bucket.paramOffsets[i], bucket.paramSizes[i]).copy_(grad.flatten());
@@ -223,6 +231,9 @@ void Reducer::copyFlattenedBufferToGrads(int64_t bucketIdx) const {
   for (int64_t i = 0; i < static_cast<int64_t>(bucket.params.size()); i++) {
     ASSERT(bucket.params[i] != nullptr);
     ASSERT(bucket.params[i]->defined());
+    if (!bucket.params[i]->requiresGrad()) {
+      continue;
+    }
     auto& grad = bucket.params[i]->grad();
     ASSERT(grad.defined());
     auto slice = bucket.flatBuffer.narrow(0, bucket.paramOffsets[i], bucket.paramSizes[i]);
diff --git a/src/Distributed/Reducer.h b/src/Distributed/Reducer.h
index 7d27726..046dba7 100644
--- a/src/Distributed/Reducer.h
+++ b/src/Distributed/Reducer.h
@@ -40,6 +40,7 @@ class Reducer {
     Tensor flatBuffer;
 
     int64_t totalSize = 0;
+    int64_t gradCount = 0;  // parameters that require a gradient
     int64_t readyCount = 0;
     bool reduceStarted = false;
     std::shared_ptr<Work> work;
-- 
2.43.0


From d107b357c28ee6c144c1272c09b388cf5284c23f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:59 +0000
Subject: [PATCH 57/78] fix: frozen parameters are skipped when gradients are
 cleared or applied

---
 src/Optimizer.cpp     | 6 ++++++
 src/Tensor/Tensor.cpp | 3 +++
 2 files changed, 9 insertions(+)

diff --git a/src/Optimizer.cpp b/src/Optimizer.cpp
index f402697..8e2f8a0 100644
--- a/src/Optimizer.cpp
+++ b/src/Optimizer.cpp
@@ -26,6 +26,9 @@ void Optimizer::zeroGrad() const {
 }
 
 Tensor Optimizer::getDecayedGrad(TensorPtr param) const {
+  if (!param->requiresGrad()) {
+    return {};
+  }
   auto ret = param->grad();
   if (!ret.defined()) {
     return ret;
@@ -215,6 +218,9 @@ AdamW::AdamW(std::vector<TensorPtr> &&parameters, float lr, const std::pair<floa
     : Adam(std::move(parameters), lr, betas, eps, weightDecay, amsGrad) {}
 
 Tensor AdamW::getDecayedGrad(TensorPtr param) const {
+  if (!param->requiresGrad()) {
+    return {};
+  }
   auto ret = param->grad();
   if (ret.defined()) {
     *param *= (1.f - lr_ * weightDecay_);
diff --git a/src/Tensor/Tensor.cpp b/src/Tensor/Tensor.cpp
index d2810b0..fca776a 100644
--- a/src/Tensor/Tensor.cpp
+++ b/src/Tensor/Tensor.cpp
@@ -180,6 +180,9 @@ void Tensor::addGrad(Tensor &&grad) const {
 }
 
 void Tensor::zeroGrad() const {
+  if (!requiresGrad()) {
+    return;
+  }
   ASSERT(gradMeta_ != nullptr);
   gradMeta_->zeroGrad(*this);
 }
-- 
2.43.0


From e0614de829b31242b1c7b828ed89b80741c89bab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:24 +0000
Subject: [PATCH 58/78] fix: TCPStore waiters are not forgotten when their keys
 vanish again

---
 src/Distributed/TCPStore.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Distributed/TCPStore.cpp b/src/Distributed/TCPStore.cpp
index f5f017e..d4b2ada 100644
--- a/src/Distributed/TCPStore.cpp
+++ b/src/Distributed/TCPStore.cpp
@@ -916,10 +916,10 @@ bool TCPStore::ServerImpl::handleSetCommand(socket_t socket) {
 
     auto it = keyCVs_.find(key);
     if (it != keyCVs_.end()) {
+      // waiters leave the list themselves: one that finds its keys gone again has to be woken the next time, too
       for (auto& cv : it->second) {
         cv->notify_all();
       }
-      keyCVs_.erase(it);
     }
   }
 
@@ -1038,10 +1038,10 @@ bool TCPStore::ServerImpl::handleAddCommand(socket_t socket) {
 
     auto it = keyCVs_.find(key);
     if (it != keyCVs_.end()) {
+      // waiters leave the list themselves: one that finds its keys gone again has to be woken the next time, too
       for (auto& cv : it->second) {
         cv->notify_all();
       }
-      keyCVs_.erase(it);
     }
   }
 
-- 
2.43.0


From 53cd137ca4c8b2d3945b026250698174cb67c0a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:25 +0000
Subject: [PATCH 59/78] fix: a TCPStore get that times out keeps its client
 connected

---
 src/Distributed/TCPStore.cpp | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/Distributed/TCPStore.cpp b/src/Distributed/TCPStore.cpp
index d4b2ada..19ce8af 100644
--- a/src/Distributed/TCPStore.cpp
+++ b/src/Distributed/TCPStore.cpp
@@ -50,6 +50,9 @@ enum class TCPStoreCommandType : uint8_t {
   CMD_WORKER_UNREGISTER
 };
 
+// sent in place of a value's size when a get request timed out
+static constexpr uint64_t kNoValue = UINT64_MAX;
+
 static void setupSignalHandlers() {
   // ignore SIGPIPE
   signal(SIGPIPE, SIG_IGN);
@@ -459,6 +462,11 @@ bool TCPStore::ClientImpl::get(const std::string& key, std::vector<uint8_t>& val
     return false;
   }
 
+  if (valueSize == detail::kNoValue) {
+    LOGE("TCPStore: GET command timed out");
+    return false;
+  }
+
   value.resize(valueSize);
   if (valueSize > 0 && !detail::recvBytes(clientSock_, value.data(), valueSize)) {
     LOGE("TCPStore: Failed to receive value for GET command");
@@ -1004,8 +1012,13 @@ bool TCPStore::ServerImpl::handleGetCommand(socket_t socket) {
            (valueSize == 0 || detail::sendBytes(socket, value.data(), valueSize));
   }
 
+  if (shutdownServer_.load()) {
+    return false;
+  }
+
   LOGE("TCPStore: Get timeout after %lld ms for key: %s", timeout_.count(), key.c_str());
-  return false;
+  uint64_t noValue = detail::kNoValue;
+  return detail::sendBytes(socket, &noValue, sizeof(noValue));
 }
 
 bool TCPStore::ServerImpl::handleAddCommand(socket_t socket) {
-- 
2.43.0


From e2dcb67464209b0424482bbfa5e77921a0afe224 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:26 +0000
Subject: [PATCH 60/78] fix: TCPStore survives malformed messages and
 non-numeric values

---
 src/Distributed/TCPStore.cpp | 109 +++++++++++++++++------------------
 1 file changed, 52 insertions(+), 57 deletions(-)

diff --git a/src/Distributed/TCPStore.cpp b/src/Distributed/TCPStore.cpp
index 19ce8af..58cdf9b 100644
--- a/src/Distributed/TCPStore.cpp
+++ b/src/Distributed/TCPStore.cpp
@@ -19,6 +19,7 @@
 #include <cerrno>
 #include <condition_variable>
 #include <csignal>
+#include <cstdlib>
 #include <cstring>
 #include <mutex>
 #include <thread>
@@ -119,6 +120,27 @@ static bool recvBytes(socket_t socket, void* data, size_t size) {
   return true;
 }
 
+// receives a size and that many bytes; memory grows with the bytes that arrive, whatever size was announced
+template <typename T>
+static bool recvSized(socket_t socket, T& out) {
+  constexpr uint64_t kBlockSize = 4096;
+  uint64_t size;
+  if (!recvBytes(socket, &size, sizeof(size))) {
+    return false;
+  }
+  out.clear();
+  while (size > 0) {
+    auto offset = out.size();
+    auto count = static_cast<size_t>(std::min(size, kBlockSize));
+    out.resize(offset + count);
+    if (!recvBytes(socket, &out[offset], count)) {
+      return false;
+    }
+    size -= count;
+  }
+  return true;
+}
+
 bool configureSocket(socket_t socket) {
   int optval = 1;
 
@@ -898,23 +920,13 @@ bool TCPStore::ServerImpl::handleClient(socket_t socket) {
 }
 
 bool TCPStore::ServerImpl::handleSetCommand(socket_t socket) {
-  uint64_t keySize;
-  if (!detail::recvBytes(socket, &keySize, sizeof(keySize))) {
+  std::string key;
+  if (!detail::recvSized(socket, key)) {
     return false;
   }
 
-  std::string key(keySize, '\0');
-  if (!detail::recvBytes(socket, &key[0], keySize)) {
-    return false;
-  }
-
-  uint64_t valueSize;
-  if (!detail::recvBytes(socket, &valueSize, sizeof(valueSize))) {
-    return false;
-  }
-
-  std::vector<uint8_t> value(valueSize);
-  if (!detail::recvBytes(socket, value.data(), valueSize)) {
+  std::vector<uint8_t> value;
+  if (!detail::recvSized(socket, value)) {
     return false;
   }
 
@@ -936,13 +948,8 @@ bool TCPStore::ServerImpl::handleSetCommand(socket_t socket) {
 }
 
 bool TCPStore::ServerImpl::handleGetCommand(socket_t socket) {
-  uint64_t keySize;
-  if (!detail::recvBytes(socket, &keySize, sizeof(keySize))) {
-    return false;
-  }
-
-  std::string key(keySize, '\0');
-  if (!detail::recvBytes(socket, &key[0], keySize)) {
+  std::string key;
+  if (!detail::recvSized(socket, key)) {
     return false;
   }
 
@@ -1022,13 +1029,8 @@ bool TCPStore::ServerImpl::handleGetCommand(socket_t socket) {
 }
 
 bool TCPStore::ServerImpl::handleAddCommand(socket_t socket) {
-  uint64_t keySize;
-  if (!detail::recvBytes(socket, &keySize, sizeof(keySize))) {
-    return false;
-  }
-
-  std::string key(keySize, '\0');
-  if (!detail::recvBytes(socket, &key[0], keySize)) {
+  std::string key;
+  if (!detail::recvSized(socket, key)) {
     return false;
   }
 
@@ -1040,11 +1042,16 @@ bool TCPStore::ServerImpl::handleAddCommand(socket_t socket) {
   int64_t newValue = addValue;
   {
     std::lock_guard<std::mutex> lock(mutex_);
-    const auto& value = keyValueStore_[key];
-    if (!value.empty()) {
-      auto buf = reinterpret_cast<const char*>(value.data());
-      auto len = value.size();
-      newValue += std::stoll(std::string(buf, len));
+    auto valueIt = keyValueStore_.find(key);
+    if (valueIt != keyValueStore_.end() && !valueIt->second.empty()) {
+      const std::string text(valueIt->second.begin(), valueIt->second.end());
+      char* end = nullptr;
+      errno = 0;
+      newValue += std::strtoll(text.c_str(), &end, 10);
+      if (end == text.c_str() || errno != 0) {
+        LOGE("TCPStore: Value of key %s is not a number", key.c_str());
+        return false;
+      }
     }
     auto newValStr = std::to_string(newValue);
     keyValueStore_[key] = std::vector<uint8_t>(newValStr.begin(), newValStr.end());
@@ -1067,18 +1074,14 @@ bool TCPStore::ServerImpl::handleCheckCommand(socket_t socket) {
     return false;
   }
 
-  std::vector<std::string> keys(numKeys);
+  std::vector<std::string> keys;
 
-  for (size_t i = 0; i < numKeys; i++) {
-    uint64_t keySize;
-    if (!detail::recvBytes(socket, &keySize, sizeof(keySize))) {
-      return false;
-    }
-
-    keys[i].resize(keySize);
-    if (!detail::recvBytes(socket, &keys[i][0], keySize)) {
+  for (uint64_t i = 0; i < numKeys; i++) {
+    std::string key;
+    if (!detail::recvSized(socket, key)) {
       return false;
     }
+    keys.push_back(std::move(key));
   }
 
   bool allKeysExist = true;
@@ -1102,16 +1105,13 @@ bool TCPStore::ServerImpl::handleWaitCommand(socket_t socket) {
     return false;
   }
 
-  std::vector<std::string> keys(numKeys);
-  for (size_t i = 0; i < numKeys; i++) {
-    uint64_t keySize;
-    if (!detail::recvBytes(socket, &keySize, sizeof(keySize))) {
-      return false;
-    }
-    keys[i].resize(keySize);
-    if (!detail::recvBytes(socket, &keys[i][0], keySize)) {
+  std::vector<std::string> keys;
+  for (uint64_t i = 0; i < numKeys; i++) {
+    std::string key;
+    if (!detail::recvSized(socket, key)) {
       return false;
     }
+    keys.push_back(std::move(key));
   }
 
   bool success = true;
@@ -1178,13 +1178,8 @@ bool TCPStore::ServerImpl::handleWaitCommand(socket_t socket) {
 }
 
 bool TCPStore::ServerImpl::handleDeleteCommand(socket_t socket) {
-  uint64_t keySize;
-  if (!detail::recvBytes(socket, &keySize, sizeof(keySize))) {
-    return false;
-  }
-
-  std::string key(keySize, '\0');
-  if (!detail::recvBytes(socket, &key[0], keySize)) {
+  std::string key;
+  if (!detail::recvSized(socket, key)) {
     return false;
   }
 
-- 
2.43.0


From decb041ff40cdeb62b682048fc292ad5ca6ce474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:27 +0000
Subject: [PATCH 61/78] fix: TCPStore joins its threads and closes each socket
 once

---
 src/Distributed/TCPStore.cpp | 37 +++++++++++++++++++++++++++++-------
 1 file changed, 30 insertions(+), 7 deletions(-)

diff --git a/src/Distributed/TCPStore.cpp b/src/Distributed/TCPStore.cpp
index 58cdf9b..19b2463 100644
--- a/src/Distributed/TCPStore.cpp
+++ b/src/Distributed/TCPStore.cpp
@@ -281,6 +281,7 @@ class TCPStore::ServerImpl {
   std::unordered_set<socket_t> activeClients_;
   std::mutex activeClientsMutex_;
   std::thread clientMonitorThread_;
+  std::condition_variable monitorCV_;
   std::atomic<bool> monitoringRunning_{false};
 };
 
@@ -676,6 +677,13 @@ TCPStore::ServerImpl::~ServerImpl() {
   shutdownServer_.store(true);
   stopClientMonitoring();
 
+  // wakes the server thread, which may be waiting in accept
+  if (serverSock_ != INVALID_SOCKET) {
+    shutdown(serverSock_, SHUT_RDWR);
+  }
+  if (serverThread_.joinable()) {
+    serverThread_.join();
+  }
   if (serverSock_ != INVALID_SOCKET) {
     closesocket(serverSock_);
     serverSock_ = INVALID_SOCKET;
@@ -692,7 +700,6 @@ TCPStore::ServerImpl::~ServerImpl() {
     workerCV_.notify_all();
   }
 
-  serverThread_.detach();
   shutdownAllThreads();
 }
 
@@ -758,14 +765,21 @@ void TCPStore::ServerImpl::startClientMonitoring() {
   clientMonitorThread_ = std::thread([this]() {
     while (monitoringRunning_.load()) {
       cleanupDisconnectedClients();
-      std::this_thread::sleep_for(std::chrono::milliseconds(500));
+      std::unique_lock<std::mutex> lock(activeClientsMutex_);
+      monitorCV_.wait_for(lock, std::chrono::milliseconds(500), [this] { return !monitoringRunning_.load(); });
     }
   });
 }
 
 void TCPStore::ServerImpl::stopClientMonitoring() {
-  monitoringRunning_.store(false);
-  clientMonitorThread_.detach();
+  {
+    std::lock_guard<std::mutex> lock(activeClientsMutex_);
+    monitoringRunning_.store(false);
+    monitorCV_.notify_all();
+  }
+  if (clientMonitorThread_.joinable()) {
+    clientMonitorThread_.join();
+  }
 }
 
 void TCPStore::ServerImpl::cleanupDisconnectedClients() {
@@ -775,7 +789,8 @@ void TCPStore::ServerImpl::cleanupDisconnectedClients() {
   while (it != activeClients_.end()) {
     if (!detail::isSocketConnected(*it)) {
       LOGI("TCPStore: Detected disconnected client, cleaning up");
-      closesocket(*it);
+      // ends the client's thread, which closes the socket: nobody else may, the descriptor could be in use again
+      shutdown(*it, SHUT_RDWR);
       it = activeClients_.erase(it);
     } else {
       ++it;
@@ -805,9 +820,17 @@ void TCPStore::ServerImpl::shutdownAllThreads() {
     clientThreads_.clear();
   }
 
+  // wakes the threads that wait for a command of their client
+  {
+    std::lock_guard<std::mutex> lock(activeClientsMutex_);
+    for (auto socket : activeClients_) {
+      shutdown(socket, SHUT_RDWR);
+    }
+  }
+
   for (auto& thread : threads) {
-    if (thread) {
-      thread->detach();
+    if (thread && thread->joinable()) {
+      thread->join();
     }
   }
 
-- 
2.43.0


From 1734ef4cc517afe5b4971ba9b7f4602c4cb77137 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:28 +0000
Subject: [PATCH 62/78] fix: the TCPStore server does not lock itself out after
 129 clients

---
 src/Distributed/TCPStore.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/Distributed/TCPStore.cpp b/src/Distributed/TCPStore.cpp
index 19b2463..b334750 100644
--- a/src/Distributed/TCPStore.cpp
+++ b/src/Distributed/TCPStore.cpp
@@ -855,13 +855,14 @@ void TCPStore::ServerImpl::serverLoop() {
       activeClients_.insert(clientSocket);
     }
 
+    // takes clientThreadsMutex_ itself; only this thread adds to the list
+    if (clientThreads_.size() > 128) {
+      cleanupFinishedThreads();
+    }
+
     {
       std::lock_guard<std::mutex> lock(clientThreadsMutex_);
 
-      if (clientThreads_.size() > 128) {
-        cleanupFinishedThreads();
-      }
-
       auto thread = std::make_unique<std::thread>(&ServerImpl::handleClientInThread, this, clientSocket);
       clientThreads_.push_back(std::move(thread));
       activeThreadCount_.fetch_add(1);
-- 
2.43.0


From 692fd5d7390eb6b730c8fd754c0d6bf6b72ec94a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:29 +0000
Subject: [PATCH 63/78] fix: TCPStore transfers survive interruptions

---
 src/Distributed/TCPStore.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Distributed/TCPStore.cpp b/src/Distributed/TCPStore.cpp
index b334750..d40d822 100644
--- a/src/Distributed/TCPStore.cpp
+++ b/src/Distributed/TCPStore.cpp
@@ -71,7 +71,7 @@ static bool sendBytes(socket_t socket, const void* data, size_t size) {
       if (error == EPIPE || error == ECONNRESET || error == ECONNABORTED) {
         LOGE("TCPStore: Client disconnected (EPIPE/ECONNRESET/ECONNABORTED)");
         return false;
-      } else if (error == EAGAIN) {
+      } else if (error == EAGAIN || error == EINTR) {
         std::this_thread::sleep_for(std::chrono::milliseconds(1));
         continue;
       } else {
@@ -100,7 +100,7 @@ static bool recvBytes(socket_t socket, void* data, size_t size) {
       if (error == ECONNRESET || error == EPIPE || error == ECONNABORTED) {
         LOGE("TCPStore: Client disconnected during recv");
         return false;
-      } else if (error == EAGAIN) {
+      } else if (error == EAGAIN || error == EINTR) {
         std::this_thread::sleep_for(std::chrono::milliseconds(1));
         continue;
       } else if (error == ETIMEDOUT) {
-- 
2.43.0


From a0074a28ab63ef1cb89263971a119c8ba2a56482 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:23 +0000
Subject: [PATCH 64/78] fix: CUDA reductions merge without overwriting unread
 input and copy the converted result

---
 src/Operation/OpReduceCuda.cuh | 29 +++++++++++++++++++----------
 1 file changed, 19 insertions(+), 10 deletions(-)

diff --git a/src/Operation/OpReduceCuda.cuh b/src/Operation/OpReduceCuda.cuh
index 47fc0f8..9ef15cd 100644
--- a/src/Operation/OpReduceCuda.cuh
+++ b/src/Operation/OpReduceCuda.cuh
@@ -438,22 +438,24 @@ void ReducerCuda::reduceMerge(T* values, const T* input, const Options& options,
 
   auto blocks = cuda::getKernelGridSize(blockSize, n);
   Tensor tmp({m * blocks}, Options(options.device_, TypeToDType_v<ComputeT>));
-  ComputeT* tmpPtr = tmp.dataPtr<ComputeT>();
 
   // first round
-  kReduceMerge<ComputeT, T, OP, IndexFunc><<<m * blocks, blockSize, 0, stream>>>(tmpPtr, input, n, m);
+  kReduceMerge<ComputeT, T, OP, IndexFunc><<<m * blocks, blockSize, 0, stream>>>(tmp.dataPtr<ComputeT>(), input, n, m);
   CUDA_KERNEL_CHECK();
 
   // merge
   while (blocks > 1) {
     const auto currBlocks = blocks;
     blocks = cuda::getKernelGridSize(blockSize, currBlocks);
+    // blocks run in any order, so they must not overwrite the input of one another
+    Tensor out({m * blocks}, Options(options.device_, TypeToDType_v<ComputeT>));
     kReduceMerge<ComputeT, ComputeT, OP, IndexFunc>
-        <<<m * blocks, blockSize, 0, stream>>>(tmpPtr, tmpPtr, currBlocks, m);
+        <<<m * blocks, blockSize, 0, stream>>>(out.dataPtr<ComputeT>(), tmp.dataPtr<ComputeT>(), currBlocks, m);
     CUDA_KERNEL_CHECK();
+    tmp = out;
   }
   tmp = tmp.to(options.dtype_);
-  Storage::copyOnDevice(values, tmpPtr, m * sizeof(T), options.device_);
+  Storage::copyOnDevice(values, tmp.dataPtr<T>(), m * sizeof(T), options.device_);
 }
 
 template <typename T, typename OP, typename IndexFunc>
@@ -467,28 +469,35 @@ void ReducerCuda::reduceIdxMerge(T* values, int64_t* indices, const T* input, co
 
   Tensor tmpValues({m * blocks}, Options(options.device_, TypeToDType_v<ComputeT>));
   Tensor tmpIndices({m * blocks}, Options(options.device_, DType::Int64));
-  ComputeT* tmpValuesPtr = tmpValues.dataPtr<ComputeT>();
-  int64_t* tmpIndicesPtr = tmpIndices.dataPtr<int64_t>();
 
   // first round
   kReduceIdxMerge<ComputeT, T, OP, IndexFunc>
-      <<<m * blocks, blockSize, 0, stream>>>(tmpValuesPtr, tmpIndicesPtr, input, nullptr, n, m);
+      <<<m * blocks, blockSize, 0, stream>>>(tmpValues.dataPtr<ComputeT>(), tmpIndices.dataPtr<int64_t>(), input,
+                                             nullptr, n, m);
   CUDA_KERNEL_CHECK();
 
   // merge
   while (blocks > 1) {
     const auto currBlocks = blocks;
     blocks = cuda::getKernelGridSize(blockSize, currBlocks);
+    // blocks run in any order, so they must not overwrite the input of one another
+    Tensor outValues({m * blocks}, Options(options.device_, TypeToDType_v<ComputeT>));
+    Tensor outIndices({m * blocks}, Options(options.device_, DType::Int64));
     kReduceIdxMerge<ComputeT, ComputeT, OP, IndexFunc>
-        <<<m * blocks, blockSize, 0, stream>>>(tmpValuesPtr, tmpIndicesPtr, tmpValuesPtr, tmpIndicesPtr, currBlocks, m);
+        <<<m * blocks, blockSize, 0, stream>>>(outValues.dataPtr<ComputeT>(), outIndices.dataPtr<int64_t>(),
+                                               tmpValues.dataPtr<ComputeT>(), tmpIndices.dataPtr<int64_t>(),
+                                               currBlocks, m);
     CUDA_KERNEL_CHECK();
+    tmpValues = outValues;
+    tmpIndices = outIndices;
   }
   if (values) {
     tmpValues = tmpValues.to(options.dtype_);
-    Storage::copyOnDevice(values, tmpValuesPtr, m * sizeof(T), options.device_);
+    Storage::copyOnDevice(values, tmpValues.dataPtr<T>(), m * sizeof(T), options.device_);
   }
   if (indices) {
-    Storage::copyOnDevice(indices, tmpIndicesPtr, m * static_cast<int64_t>(sizeof(int64_t)), options.device_);
+    Storage::copyOnDevice(indices, tmpIndices.dataPtr<int64_t>(), m * static_cast<int64_t>(sizeof(int64_t)),
+                          options.device_);
   }
 }
 
-- 
2.43.0


From 409ae39884b9110392b63e3190c42e366eddc6dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:23 +0000
Subject: [PATCH 65/78] fix: the CUDA sum over several dimensions launches one
 block per output element

---
 src/Operation/OpReduceCuda.cuh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Operation/OpReduceCuda.cuh b/src/Operation/OpReduceCuda.cuh
index 9ef15cd..0ad36bf 100644
--- a/src/Operation/OpReduceCuda.cuh
+++ b/src/Operation/OpReduceCuda.cuh
@@ -714,11 +714,11 @@ Tensor reduceOpSumDimsCudaImpl(const Tensor& t, const IntArrayView dims, bool ke
   constexpr int blockSize = 512;
   ASSERT(blockSize <= cuda::getMaxThreadsPerBlock(t.device().index));
 
-  dim3 grid(t.numel());
+  dim3 grid(ret.numel());
   dim3 block(blockSize);
   const auto& stream = cuda::getCurrentCUDAStream(t.device().index).stream();
   kReduceMultiDimSum<CudaT, blockSize>
-      <<<grid, block, 0, stream>>>(ret.dataPtr<CudaT>(), ctxT, inAxis, reduceCnt, t.numel());
+      <<<grid, block, 0, stream>>>(ret.dataPtr<CudaT>(), ctxT, inAxis, reduceCnt, ret.numel());
   CUDA_KERNEL_CHECK();
   return ret;
 }
-- 
2.43.0


From a6b33eec00dc9cc1b82d4b3fa5cbd52a7a8b775a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:24 +0000
Subject: [PATCH 66/78] fix: CUDA varMean over dimensions drops the reduced
 dimensions of the mean too when keepDims is false

---
 src/Operation/OpReduceCuda.cuh | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/Operation/OpReduceCuda.cuh b/src/Operation/OpReduceCuda.cuh
index 0ad36bf..9c70e24 100644
--- a/src/Operation/OpReduceCuda.cuh
+++ b/src/Operation/OpReduceCuda.cuh
@@ -8,6 +8,7 @@
 
 #include "OpElemWise.h"
 #include "OpReduce.h"
+#include "OpTransform.h"
 #include "OpTransformCuda.cuh"
 #include "Tensor/Storage.h"
 #include "Utils/CUDAMath.h"
@@ -834,6 +835,9 @@ TensorPair reduceOpVarMeanDimsCudaImpl(const Tensor& t, IntArrayView dims, bool
     r *= reduceSize / (reduceSize - 1.f);
   }
   op::mulInplace(varVal, Tensor::scalar(r, varVal.options().noGrad()));
+  if (!keepDims) {
+    meanVal = op::reshape(meanVal, varVal.shape());
+  }
   return {varVal, meanVal};
 }
 
-- 
2.43.0


From 8a30ee5c8a3f83d4b56cd0466e6326be3e031203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:36 +0000
Subject: [PATCH 67/78] fix: manualSeed restarts the CUDA random sequence

---
 src/Utils/RandomGenerator.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/Utils/RandomGenerator.h b/src/Utils/RandomGenerator.h
index 4e19f92..9e3350e 100644
--- a/src/Utils/RandomGenerator.h
+++ b/src/Utils/RandomGenerator.h
@@ -32,7 +32,10 @@ class RandomGeneratorCPU {
 
 class RandomGeneratorCUDA {
  public:
-  static void setSeed(unsigned long seed) { seed_ = seed; }
+  static void setSeed(unsigned long seed) {
+    seed_ = seed;
+    sequence_ = 0;
+  }
   static unsigned long getSeed() { return seed_; }
   static unsigned long nextSequence() { return sequence_++; }
 
-- 
2.43.0


From f3aaf51d540e3ae0510161836788d6ed8eba1be0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:54 +0000
Subject: [PATCH 68/78] fix: a copy between CUDA devices waits for the source
 device

---
 src/Tensor/Storage.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/Tensor/Storage.cpp b/src/Tensor/Storage.cpp
index 7fba16f..05adf79 100644
--- a/src/Tensor/Storage.cpp
+++ b/src/Tensor/Storage.cpp
@@ -48,7 +48,19 @@ void Storage::copyOnDevice(void* dst, const Device& dstDevice, const void* src,
   if (dstDevice.isCuda() && srcDevice.isCuda()) {
     cuda::CudaDeviceGuard guard(dstDevice.index);
     auto& stream = cuda::getCurrentCUDAStream(dstDevice.index);
+    if (dstDevice.index == srcDevice.index) {
+      CUDA_CHECK(cudaMemcpyAsync(dst, src, nbytes, cudaMemcpyDeviceToDevice, stream.stream()));
+      return;
+    }
+    // the copy waits for the source to be written, and the source device waits for the copy before it reuses the memory
+    auto& srcStream = cuda::getCurrentCUDAStream(srcDevice.index);
+    const auto written = cuda::createCUDAEvent(srcDevice.index);
+    written.record(srcStream);
+    written.block(stream);
     CUDA_CHECK(cudaMemcpyAsync(dst, src, nbytes, cudaMemcpyDeviceToDevice, stream.stream()));
+    const auto copied = cuda::createCUDAEvent(dstDevice.index);
+    copied.record(stream);
+    copied.block(srcStream);
     return;
   }
 
-- 
2.43.0


From b9ee69bc678de99d5923837372f604a526d68fdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:59 +0000
Subject: [PATCH 69/78] fix: a copy from pinned memory to a CUDA device is
 complete when it returns

---
 src/Tensor/Storage.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/Tensor/Storage.cpp b/src/Tensor/Storage.cpp
index 05adf79..f36e571 100644
--- a/src/Tensor/Storage.cpp
+++ b/src/Tensor/Storage.cpp
@@ -69,6 +69,8 @@ void Storage::copyOnDevice(void* dst, const Device& dstDevice, const void* src,
     cuda::CudaDeviceGuard guard(dstDevice.index);
     auto& stream = cuda::getCurrentCUDAStream(dstDevice.index);
     CUDA_CHECK(cudaMemcpyAsync(dst, src, nbytes, cudaMemcpyHostToDevice, stream.stream()));
+    // pinned memory is read asynchronously, and the caller is free to change or release it
+    stream.synchronize();
     return;
   }
 
-- 
2.43.0


From 630669ee83a2c621eb33a38930f9c9bdb1e984a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:15 +0000
Subject: [PATCH 70/78] fix: CUDA operations accept tensors without elements

---
 src/Operation/OpReduceCuda.cuh | 13 +++++++++++--
 src/Utils/CUDAUtils.h          | 11 ++++++++---
 2 files changed, 19 insertions(+), 5 deletions(-)

diff --git a/src/Operation/OpReduceCuda.cuh b/src/Operation/OpReduceCuda.cuh
index 9c70e24..f799245 100644
--- a/src/Operation/OpReduceCuda.cuh
+++ b/src/Operation/OpReduceCuda.cuh
@@ -552,8 +552,11 @@ Tensor ReducerCuda::reduceDim(const Tensor& t, int64_t dim, bool keepDims) {
 
   const auto blockSize = cuda::getKernelBlockSize(t.device().index);
 
-  // first dim
-  if (dim == 0) {
+  // no elements
+  if (t.numel() == 0) {
+    values.fillZero_();
+  } else if (dim == 0) {
+    // first dim
     const auto dimSize = t.shape().front();
     if (static_cast<uint64_t>(dimSize) < blockSize) {
       auto params = cuda::getKernelLaunchParams(t.device().index, t.numel());
@@ -652,6 +655,9 @@ Tensor reduceOpAllCudaImpl(const Tensor& t) {
     return t;
   }
   auto ret = Tensor::scalar(0, t.options().noGrad());
+  if (t.numel() == 0) {
+    return ret;
+  }
   const CudaT* tPtr = t.dataPtr<CudaT>();
   CudaT* retPtr = ret.dataPtr<CudaT>();
   ReducerCuda::reduceMerge<CudaT, OP, CudaReduceIndexAll>(retPtr, tPtr, t.options(), t.numel());
@@ -709,6 +715,9 @@ Tensor reduceOpSumDimsCudaImpl(const Tensor& t, const IntArrayView dims, bool ke
 
   const auto retShape = getReduceShape(t, inAxis, keepDims);
   auto ret = Tensor::zeros(retShape, t.options().noGrad());
+  if (ret.numel() == 0) {
+    return ret;
+  }
 
   auto ctxT = cuda::getTensorCudaCtx(t);
 
diff --git a/src/Utils/CUDAUtils.h b/src/Utils/CUDAUtils.h
index 2ceec5f..d52e154 100644
--- a/src/Utils/CUDAUtils.h
+++ b/src/Utils/CUDAUtils.h
@@ -266,9 +266,14 @@ unsigned int getKernelBlockSize(int device);
 unsigned int getKernelGridSize(unsigned int blockSize, int64_t n, size_t batch = 1);
 KernelLaunchParams getKernelLaunchParams(int device, int64_t n, size_t batch = 1, size_t sharedMemBytes = 0);
 
-#define CUDA_LAUNCH_KERNEL(KERNEL, PARAMS, ...)                                                     \
-  KERNEL<<<(PARAMS).grid, (PARAMS).block, (PARAMS).sharedMemBytes, (PARAMS).stream>>>(__VA_ARGS__); \
-  CUDA_KERNEL_CHECK();
+// nothing to launch for an empty tensor: an empty grid is an error
+#define CUDA_LAUNCH_KERNEL(KERNEL, PARAMS, ...)                                                         \
+  do {                                                                                                  \
+    if ((PARAMS).grid.x > 0) {                                                                          \
+      KERNEL<<<(PARAMS).grid, (PARAMS).block, (PARAMS).sharedMemBytes, (PARAMS).stream>>>(__VA_ARGS__); \
+      CUDA_KERNEL_CHECK();                                                                              \
+    }                                                                                                   \
+  } while (0)
 
 struct ALIGN(16) TensorCudaCtx {
   int64_t ndim;
-- 
2.43.0


From 718299b419c7502c491c49c2438103159be5bb78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:45 +0000
Subject: [PATCH 71/78] fix: a CUDA block reduction leaves its shared memory
 alone until every thread has read the result

---
 src/Operation/OpNNLayerCuda.cuh | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/Operation/OpNNLayerCuda.cuh b/src/Operation/OpNNLayerCuda.cuh
index 9054297..6a5e1b3 100644
--- a/src/Operation/OpNNLayerCuda.cuh
+++ b/src/Operation/OpNNLayerCuda.cuh
@@ -30,7 +30,10 @@ __device__ T cudaBlockReduce(T val, T init) {
     if (threadIdx.x == 0) shared[0] = val;
   }
   __syncthreads();
-  return shared[0];
+  val = shared[0];
+  // the next reduction writes to shared again
+  __syncthreads();
+  return val;
 }
 
 template <typename T, SoftmaxType type>
-- 
2.43.0


From d4e020c0280e32814db135817ae56859cadb9db8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:45 +0000
Subject: [PATCH 72/78] fix: masked dropout that keeps nothing gives zeros on
 CUDA

---
 src/Operation/OpNNLayerCuda.cuh | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/Operation/OpNNLayerCuda.cuh b/src/Operation/OpNNLayerCuda.cuh
index 6a5e1b3..01fcd74 100644
--- a/src/Operation/OpNNLayerCuda.cuh
+++ b/src/Operation/OpNNLayerCuda.cuh
@@ -565,7 +565,9 @@ Tensor dropoutMaskedOpCudaImpl(const Tensor& self, const Tensor& mask, float p)
   using CudaT = typename cuda::CudaTypeCast<T>::type;
   auto tp = static_cast<CudaT>(p);
   iterator.template forEach<CudaT>(out,
-                                   [tp] __device__(const CudaT& a, const CudaT& b) -> CudaT { return a * b / tp; });
+                                   [tp] __device__(const CudaT& a, const CudaT& b) -> CudaT {
+                                     return static_cast<float>(tp) > 0.f ? a * b / tp : CudaT(0.f);
+                                   });
   return out;
 }
 
-- 
2.43.0


From 3efed04f5bd234c53640ea7f6d277f825fc90d58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:45 +0000
Subject: [PATCH 73/78] fix: CUDA operations with an output copy a shared
 buffer before writing

---
 src/Operation/OpElemWiseCuda.cuh  | 1 +
 src/Operation/OpNNLayerCuda.cuh   | 2 ++
 src/Operation/OpTransformCuda.cuh | 1 +
 3 files changed, 4 insertions(+)

diff --git a/src/Operation/OpElemWiseCuda.cuh b/src/Operation/OpElemWiseCuda.cuh
index cbb3464..fb0d0ce 100644
--- a/src/Operation/OpElemWiseCuda.cuh
+++ b/src/Operation/OpElemWiseCuda.cuh
@@ -335,6 +335,7 @@ Tensor unaryOpCudaImpl(const Tensor& self) {
 template <typename T, typename OP>
 void unaryOpOutCudaImpl(Tensor& out, const Tensor& self) {
   ASSERT(self.shape() == out.shape());
+  out.copyOnWrite();
   T* outPtr = out.dataPtr<T>();
   const T* selfPtr = self.dataPtr<T>();
   int64_t n = self.numel();
diff --git a/src/Operation/OpNNLayerCuda.cuh b/src/Operation/OpNNLayerCuda.cuh
index 01fcd74..52d9412 100644
--- a/src/Operation/OpNNLayerCuda.cuh
+++ b/src/Operation/OpNNLayerCuda.cuh
@@ -467,6 +467,7 @@ void softmaxForwardCudaImpl(Tensor& out, const Tensor& self, int64_t dim) {
 
 template <typename T>
 void softmaxOpOutCudaImpl(Tensor& out, const Tensor& self, int64_t dim) {
+  out.copyOnWrite();
   softmaxForwardCudaImpl<T, SoftmaxType::Softmax>(out, self, dim);
 }
 
@@ -524,6 +525,7 @@ Tensor softmaxOpBackwardCudaImpl(const Tensor& grad, const Tensor& output, int64
 
 template <typename T>
 void logSoftmaxOpOutCudaImpl(Tensor& out, const Tensor& self, int64_t dim) {
+  out.copyOnWrite();
   softmaxForwardCudaImpl<T, SoftmaxType::LogSoftmax>(out, self, dim);
 }
 
diff --git a/src/Operation/OpTransformCuda.cuh b/src/Operation/OpTransformCuda.cuh
index bfb781f..891d3f1 100644
--- a/src/Operation/OpTransformCuda.cuh
+++ b/src/Operation/OpTransformCuda.cuh
@@ -531,6 +531,7 @@ void indexPutAdvanceOpCudaImpl(Tensor& self, ArrayView<Tensor> indices, const Te
   auto firstDim = indices[0].numel();
   auto dimStride = self.stride(len - 1);
 
+  self.copyOnWrite();
   T* selfPtr = self.dataPtr<T>();
   const T* valPtr = val.dataPtr<T>();
 
-- 
2.43.0


From 3be425db3f406dffe379deba5c1229146e2664bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:45 +0000
Subject: [PATCH 74/78] fix: indexSelect counts negative indices from the end
 on CUDA

---
 src/Operation/OpTransformCuda.cuh | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/Operation/OpTransformCuda.cuh b/src/Operation/OpTransformCuda.cuh
index 891d3f1..6ed43f7 100644
--- a/src/Operation/OpTransformCuda.cuh
+++ b/src/Operation/OpTransformCuda.cuh
@@ -285,7 +285,8 @@ __global__ void kExpand(T* out, const T* in, int64_t n, int64_t ndim, const DimA
 
 template <typename T>
 __global__ void kIndexSelect(T* out, const T* in, const int64_t* indices, int64_t n, int64_t ndim, int64_t indexDim,
-                             const DimArray<int64_t> inStrides, const DimArray<int64_t> outStrides) {
+                             const int64_t dimSize, const DimArray<int64_t> inStrides,
+                             const DimArray<int64_t> outStrides) {
   const int64_t idx = blockIdx.x * blockDim.x + threadIdx.x;
 
   if (idx < n) {
@@ -303,7 +304,9 @@ __global__ void kIndexSelect(T* out, const T* in, const int64_t* indices, int64_
 #pragma unroll
     for (int d = 0; d < ndim; d++) {
       if (d == indexDim) {
-        inIdx += indices[coords[d]] * inStrides.data[d];
+        int64_t i = indices[coords[d]];
+        if (i < 0) i += dimSize;
+        inIdx += i * inStrides.data[d];
       } else {
         inIdx += coords[d] * inStrides.data[d];
       }
@@ -730,7 +733,8 @@ Tensor indexSelectOpCudaImpl(const Tensor& self, int64_t dim, const Tensor& inde
   }
 
   auto params = cuda::getKernelLaunchParams(self.device().index, ret.numel());
-  CUDA_LAUNCH_KERNEL(kIndexSelect<T>, params, retPtr, selfPtr, indexPtr, ret.numel(), ndim, dim, inStrides, outStrides);
+  CUDA_LAUNCH_KERNEL(kIndexSelect<T>, params, retPtr, selfPtr, indexPtr, ret.numel(), ndim, dim,
+                     self.shape(dim), inStrides, outStrides);
   return ret;
 }
 
-- 
2.43.0


From 2fd4304222c56b34bacc51dd276031a2d98171f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:45 +0000
Subject: [PATCH 75/78] fix: min and max of values that are all infinite are
 infinite on CUDA, and name one of them

---
 src/Operation/OpReduceCuda.cuh | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/Operation/OpReduceCuda.cuh b/src/Operation/OpReduceCuda.cuh
index f799245..6cbd51a 100644
--- a/src/Operation/OpReduceCuda.cuh
+++ b/src/Operation/OpReduceCuda.cuh
@@ -29,7 +29,8 @@ struct OpCudaReduceMin {
 
   template <typename T>
   __device__ static T defaultVal() {
-    return std::numeric_limits<T>::max();
+    using L = std::numeric_limits<T>;
+    return L::has_infinity ? L::infinity() : L::max();
   }
 };
 
@@ -46,7 +47,8 @@ struct OpCudaReduceMax {
 
   template <typename T>
   __device__ static T defaultVal() {
-    return std::numeric_limits<T>::lowest();
+    using L = std::numeric_limits<T>;
+    return L::has_infinity ? -L::infinity() : L::lowest();
   }
 };
 
@@ -149,7 +151,7 @@ __device__ __forceinline__ void cudaWarpReduceIdx(T& val, int64_t& idx) {
   for (int offset = 16; offset > 0; offset /= 2) {
     T otherVal = __shfl_down_sync(0xFFFFFFFF, val, offset);
     int64_t otherIdx = __shfl_down_sync(0xFFFFFFFF, idx, offset);
-    if (OP::template apply(otherVal, val) == otherVal) {
+    if (OP::compare(otherVal, val)) {
       val = otherVal;
       idx = otherIdx;
     }
-- 
2.43.0


From dde92bfb175d1e924902aafe3c3fa6ea2fc00a42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:45 +0000
Subject: [PATCH 76/78] fix: CUDA reductions of a scalar return a tensor of
 their own instead of their input

---
 src/Operation/OpReduceCuda.cuh | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/src/Operation/OpReduceCuda.cuh b/src/Operation/OpReduceCuda.cuh
index 6cbd51a..8ef5e8a 100644
--- a/src/Operation/OpReduceCuda.cuh
+++ b/src/Operation/OpReduceCuda.cuh
@@ -650,11 +650,18 @@ TensorPair ReducerCuda::reduceIdxDim(const Tensor& t, int64_t dim, bool keepDims
   return {values, indices};
 }
 
+// reducing a scalar yields its value in a tensor of its own
+inline Tensor reduceScalarCuda(const Tensor& t) {
+  Tensor ret = t.clone();
+  ret.setRequiresGrad(false);
+  return ret;
+}
+
 template <typename T, typename OP>
 Tensor reduceOpAllCudaImpl(const Tensor& t) {
   using CudaT = typename cuda::CudaTypeCast<T>::type;
   if (t.isScalar()) {
-    return t;
+    return reduceScalarCuda(t);
   }
   auto ret = Tensor::scalar(0, t.options().noGrad());
   if (t.numel() == 0) {
@@ -683,7 +690,7 @@ template <typename T, typename OP>
 TensorPair reduceOpMinMaxDimCudaImpl(const Tensor& t, int64_t dim, bool keepDims = false) {
   using CudaT = typename cuda::CudaTypeCast<T>::type;
   if (t.isScalar()) {
-    return {t, Tensor::scalar(0, t.options().noGrad().indices())};
+    return {reduceScalarCuda(t), Tensor::scalar(0, t.options().noGrad().indices())};
   }
   return ReducerCuda::reduceIdxDim<CudaT, OP>(t, dim, keepDims);
 }
@@ -692,7 +699,7 @@ template <typename T>
 Tensor reduceOpSumDimsCudaImpl(const Tensor& t, const IntArrayView dims, bool keepDims = false) {
   using CudaT = typename cuda::CudaTypeCast<T>::type;
   if (t.isScalar()) {
-    return t;
+    return reduceScalarCuda(t);
   }
   ASSERT(!dims.empty());
 
@@ -749,7 +756,7 @@ template <typename T>
 Tensor reduceOpMeanCudaImpl(const Tensor& t) {
   using CudaT = typename cuda::CudaTypeCast<T>::type;
   if (t.isScalar()) {
-    return t;
+    return reduceScalarCuda(t);
   }
   auto ret = reduceOpAllCudaImpl<CudaT, OpCudaReduceSum>(t);
   const auto r = 1.f / static_cast<float>(t.numel());
@@ -761,7 +768,7 @@ template <typename T>
 Tensor reduceOpMeanDimsCudaImpl(const Tensor& t, const IntArrayView dims, bool keepDims = false) {
   using CudaT = typename cuda::CudaTypeCast<T>::type;
   if (t.isScalar()) {
-    return t;
+    return reduceScalarCuda(t);
   }
   ASSERT(!dims.empty());
   auto ret = reduceOpSumDimsCudaImpl<CudaT>(t, dims, keepDims);
@@ -781,7 +788,7 @@ template <typename T>
 TensorPair reduceOpVarMeanCudaImpl(const Tensor& t, bool unbiased = true) {
   using CudaT = typename cuda::CudaTypeCast<T>::type;
   if (t.isScalar()) {
-    return {Tensor::scalar(0, t.options().noGrad()), t};
+    return {Tensor::scalar(0, t.options().noGrad()), reduceScalarCuda(t)};
   }
   const auto meanVal = op::mean(t);
   auto squaredDiff = Tensor::empty({t.numel()}, t.options().noGrad());
@@ -811,7 +818,7 @@ TensorPair reduceOpVarMeanDimsCudaImpl(const Tensor& t, IntArrayView dims, bool
                                        bool keepDims = false) {
   using CudaT = typename cuda::CudaTypeCast<T>::type;
   if (t.isScalar()) {
-    return {Tensor::scalar(0, t.options().noGrad()), t};
+    return {Tensor::scalar(0, t.options().noGrad()), reduceScalarCuda(t)};
   }
   ASSERT(!dims.empty());
 
-- 
2.43.0


From c5fc9ea6be9e626792e660727ef89e54690708a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:45 +0000
Subject: [PATCH 77/78] fix: loss gradients on CUDA use the incoming gradient
 and the broadcast size

---
 src/Operation/OpLossCuda.cuh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Operation/OpLossCuda.cuh b/src/Operation/OpLossCuda.cuh
index d62baf0..6f8882f 100644
--- a/src/Operation/OpLossCuda.cuh
+++ b/src/Operation/OpLossCuda.cuh
@@ -42,7 +42,7 @@ Tensor mseLossOpBackwardCudaImpl(const Tensor& grad, const Tensor& input, const
 
   switch (reduction) {
     case LossReduction::MEAN:
-      op::divInplace(out, Tensor::scalar(input.numel(), out.options().noGrad()));
+      op::divInplace(out, Tensor::scalar(out.numel(), out.options().noGrad()));
       break;
     default:
       break;
@@ -79,7 +79,7 @@ Tensor nllLossOpBackwardCudaImpl(const Tensor& grad, const Tensor& input, const
   auto batchSize = input.shape(0);
   auto idx = Tensor::arange<int64_t>(0, batchSize, 1, input.options().noGrad());
   Tensor out = Tensor::zeros(input.shape(), input.options().noGrad());
-  op::indexPutAdvance(out, ArrayView<Tensor>{idx, target}, Tensor::scalar(-1, out.options().noGrad()));
+  op::indexPutAdvance(out, ArrayView<Tensor>{idx, target}, op::neg(grad));
 
   switch (reduction) {
     case LossReduction::MEAN:
-- 
2.43.0


From bcedd1a5cda27da7bd9685096bf67ddbe86c337d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:45 +0000
Subject: [PATCH 78/78] fix: CUDA operations reject shapes that reach outside
 their operands, and take negative axes in permute

---
 src/Operation/OpLinalgCuda.cu     |  1 +
 src/Operation/OpNNLayerCuda.cuh   |  4 ++++
 src/Operation/OpTransformCuda.cuh | 23 ++++++++++++++++++++++-
 3 files changed, 27 insertions(+), 1 deletion(-)

diff --git a/src/Operation/OpLinalgCuda.cu b/src/Operation/OpLinalgCuda.cu
index ae700ec..34bf9ec 100644
--- a/src/Operation/OpLinalgCuda.cu
+++ b/src/Operation/OpLinalgCuda.cu
@@ -13,6 +13,7 @@ namespace tinytorch::op {
 
 template <typename T>
 Tensor dotOpCudaImpl(const Tensor& self, const Tensor& other) {
+  ASSERT(self.numel() == other.numel());
   using CudaT = typename cuda::CudaTypeCast<T>::type;
   auto ret = Tensor::scalar(0, self.options().noGrad());
 
diff --git a/src/Operation/OpNNLayerCuda.cuh b/src/Operation/OpNNLayerCuda.cuh
index 52d9412..e0834b8 100644
--- a/src/Operation/OpNNLayerCuda.cuh
+++ b/src/Operation/OpNNLayerCuda.cuh
@@ -673,6 +673,10 @@ Tensor ropeApplyOpCudaImpl(const Tensor& input, const Tensor& rope, int64_t offs
   int64_t headDim = shape[3];
   ASSERT(headDim % 2 == 0);
 
+  // [contextLength, headDim, 2]
+  ASSERT(rope.dim() == 3 && rope.shape(1) == headDim && rope.shape(2) == 2);
+  ASSERT(offset >= 0 && offset + seqLen <= rope.shape(0));
+
   using CudaT = typename cuda::CudaTypeCast<T>::type;
   const auto* inputPtr = input.dataPtr<CudaT>();
   const auto* ropePtr = rope.dataPtr<float>();
diff --git a/src/Operation/OpTransformCuda.cuh b/src/Operation/OpTransformCuda.cuh
index 6ed43f7..adb663a 100644
--- a/src/Operation/OpTransformCuda.cuh
+++ b/src/Operation/OpTransformCuda.cuh
@@ -358,6 +358,12 @@ void cudaTranspose2d(T* out, const T* in, int64_t width, int64_t height, const D
 template <typename T>
 Tensor permuteOpCudaImpl(const Tensor& self, const IntArrayView dims) {
   ASSERT(dims.size() == self.dim());
+  DimArray<int64_t> used{};
+  for (auto d : dims) {
+    d = d < 0 ? d + self.dim() : d;
+    ASSERT(d >= 0 && d < self.dim() && used.data[d] == 0);
+    used.data[d] = 1;
+  }
   auto retShape = SizeVector(self.shape());
   reorderIndices(retShape.data(), self.dim(), dims);
   auto ret = Tensor::empty(retShape, self.options().noGrad());
@@ -367,7 +373,7 @@ Tensor permuteOpCudaImpl(const Tensor& self, const IntArrayView dims) {
 
   DimArray<int64_t> dimsData{};
   for (auto i = 0; i < self.dim(); i++) {
-    dimsData.data[i] = dims[i];
+    dimsData.data[i] = dims[i] < 0 ? dims[i] + self.dim() : dims[i];
   }
 
   auto params = cuda::getKernelLaunchParams(self.device().index, self.numel());
@@ -491,8 +497,16 @@ Tensor transposeOpCudaImpl(const Tensor& self, int64_t dim0, int64_t dim1) {
   return op::reshape(mergedOutput, retShape);
 }
 
+inline void checkAdvanceIndicesCuda(const Tensor& self, ArrayView<Tensor> indices) {
+  ASSERT(!indices.empty() && static_cast<int64_t>(indices.size()) <= self.dim());
+  for (const auto& index : indices) {
+    ASSERT(index.numel() == indices[0].numel());
+  }
+}
+
 template <typename T>
 Tensor indexAdvanceOpCudaImpl(const Tensor& self, ArrayView<Tensor> indices) {
+  checkAdvanceIndicesCuda(self, indices);
   auto len = static_cast<int64_t>(indices.size());
   auto firstDim = indices[0].numel();
   auto dimStride = self.stride(len - 1);
@@ -530,6 +544,7 @@ Tensor indexAdvanceOpCudaImpl(const Tensor& self, ArrayView<Tensor> indices) {
 
 template <typename T>
 void indexPutAdvanceOpCudaImpl(Tensor& self, ArrayView<Tensor> indices, const Tensor& val) {
+  checkAdvanceIndicesCuda(self, indices);
   auto len = static_cast<int64_t>(indices.size());
   auto firstDim = indices[0].numel();
   auto dimStride = self.stride(len - 1);
@@ -614,6 +629,11 @@ void gatherScatterCudaImpl(const Tensor& self, int64_t dim, const Tensor& index,
   }
   ASSERT(dim >= 0 && dim < self.dim());
   ASSERT(index.dim() == self.dim());
+  ASSERT(index.dtype() == DType::Int64);
+  for (int64_t d = 0; d < self.dim(); d++) {
+    ASSERT(d == dim || index.shape(d) <= self.shape(d));
+  }
+  ASSERT(!src || src->shape() == index.shape());
 
   DimArray<int64_t> indexStrides{};
   int64_t stride = 1;
@@ -667,6 +687,7 @@ Tensor expandOpCudaImpl(const Tensor& self, IntArrayView sizes) {
       retShape[i] = (inputIdx >= 0 ? self.shape(inputIdx) : 1);
     } else {
       ASSERT(sizes[i] > 0);
+      ASSERT(inputIdx < 0 || self.shape(inputIdx) == 1 || self.shape(inputIdx) == sizes[i]);
       retShape[i] = sizes[i];
     }
   }
-- 
2.43.0

