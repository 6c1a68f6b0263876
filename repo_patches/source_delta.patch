From 7c2f1eef8a49f234327b3e872aebec25a75ce56f Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 00:34:11 +0000
Subject: [PATCH 01/28] fix: report the strides of strided tensors

stride() compared the static type of the layout pointer and threw for every
tensor.
---
 src/INNC/tensorImpl.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/INNC/tensorImpl.cpp b/src/INNC/tensorImpl.cpp
index 9ca8418..ebc8616 100644
--- a/src/INNC/tensorImpl.cpp
+++ b/src/INNC/tensorImpl.cpp
@@ -56,10 +56,10 @@ size_t TensorImpl::size(int d) const {
 }
 
 SignedVec TensorImpl::stride() const {
-  if (typeid(view) == typeid(std::shared_ptr<StridedLayout>)) {
+  if (dlayout == layouts::strided) {
     return dynamic_cast<StridedLayout *>(view.get())->strides;
   } else {
-    throw std::runtime_error("Scalar do not have stride");
+    throw std::runtime_error("Only strided tensors have stride");
   }
 }
 
-- 
2.43.0


From 35a10c118ad2afeb59d8ff7f17c5b0954cee23bb Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 00:34:11 +0000
Subject: [PATCH 02/28] fix: define Tensor::dim

It was declared in the public header and never defined, so that no program
using it could be linked.
---
 src/INNC/tensor.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/INNC/tensor.cpp b/src/INNC/tensor.cpp
index 4784581..8e4a935 100644
--- a/src/INNC/tensor.cpp
+++ b/src/INNC/tensor.cpp
@@ -70,6 +70,8 @@ Tensor Tensor::from_blob(void *data, const SizeVec &sizes, types dtype) {
 
 size_t Tensor::numel() const noexcept { return fptr->numel(); }
 
+size_t Tensor::dim() const noexcept { return fptr->dim(); }
+
 void Tensor::release() noexcept { fptr->release(); }
 
 INNC::types Tensor::type() const { return fptr->type(); }
-- 
2.43.0


From a0a2d2c14c22ebc06da5f62718815631b23372f7 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 00:34:11 +0000
Subject: [PATCH 03/28] fix: allocate f64 storage in randn(f64)

The tensor was created as f32 and then filled with doubles, overflowing the
heap block by a factor of two.
---
 src/INNC/tensorImpl.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/INNC/tensorImpl.cpp b/src/INNC/tensorImpl.cpp
index ebc8616..4d2ee2a 100644
--- a/src/INNC/tensorImpl.cpp
+++ b/src/INNC/tensorImpl.cpp
@@ -790,7 +790,7 @@ std::shared_ptr<TensorImpl> TensorImpl::randn(const SizeVec &sizes,
     return ret;
   } else {
     std::normal_distribution<double> gen_norm{};
-    auto ret = create(INNC::f32, StridedLayout{sizes});
+    auto ret = create(INNC::f64, StridedLayout{sizes});
     auto dptr = reinterpret_cast<double *>(ret->data_->get_blob());
     for (size_t i = 0; i < ret->numel(); ++i) {
       *(dptr + i) = gen_norm(rng);
-- 
2.43.0


From 5440e3c5846619c31c82d16ad4d00e1511becb82 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 00:34:11 +0000
Subject: [PATCH 04/28] fix: reject shapes that cannot be broadcast

The condition was always true, so that e.g. {2, 0} + {3, 0} gave a tensor of
shape {3, 0}, and {2} += {3} changed its left side before it threw.
---
 src/INNC/utils/utils.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/INNC/utils/utils.cpp b/src/INNC/utils/utils.cpp
index dd3afb6..2274fde 100644
--- a/src/INNC/utils/utils.cpp
+++ b/src/INNC/utils/utils.cpp
@@ -28,8 +28,8 @@ SizeVec broadcast_range(const SizeVec *u, const SizeVec *v) {
     if (i <= dim_v) {
       auto su = (*u)[dim_u - i];
       auto sv = (*v)[dim_v - i];
-      run_expect(su != 1 || sv != 1 || su == sv, "Size ", u, " and Size ", v,
-                 " are not broadcastable.");
+      run_expect(su == sv || (su == 1 && sv != 0) || (sv == 1 && su != 0),
+                 "Size ", *u, " and Size ", *v, " are not broadcastable.");
       ret[dim_u - i] = std::max(su, sv);
     } else {
       ret[dim_u - i] = (*u)[dim_u - i];
-- 
2.43.0


From c1eb30af3f7f29be6561b2012700e7b46dea980e Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 00:34:11 +0000
Subject: [PATCH 05/28] fix: give the result of abs a layout of its own

It reused offset and strides of its operand with a storage of only numel()
elements: abs of a slice wrote out of bounds.
---
 src/INNC/tensorImpl.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/INNC/tensorImpl.cpp b/src/INNC/tensorImpl.cpp
index 4d2ee2a..d598d6f 100644
--- a/src/INNC/tensorImpl.cpp
+++ b/src/INNC/tensorImpl.cpp
@@ -392,11 +392,11 @@ std::shared_ptr<TensorImpl> TensorImpl::mean() {
 }
 
 std::shared_ptr<TensorImpl> TensorImpl::abs() {
-  auto ret = create(dtype, view);
+  auto ret = create(dtype, StridedLayout{view->sizes});
   if (!requires_grad) {
     native::tensor_abs_helper::dispatch(dtype, dtype)(ret.get(), this, nullptr);
   } else {
-    auto grad = create(dtype, view);
+    auto grad = create(dtype, StridedLayout{view->sizes});
     native::tensor_abs_helper::dispatch(dtype, dtype)(ret.get(), this,
                                                       grad.get());
     ret->requires_grad = true;
-- 
2.43.0


From fcf051d3066dfdacbe73c52eae3ac3caf35e25d1 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 00:34:11 +0000
Subject: [PATCH 06/28] fix: start max and min from the first element of the
 view

They started from the first element of the storage, which a slice may not
contain and an empty tensor does not have; and when that element was the
extremum, the gradient had no position and recording it threw.
---
 include/INNC/ops.hpp | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/include/INNC/ops.hpp b/include/INNC/ops.hpp
index 7412be1..404db10 100644
--- a/include/INNC/ops.hpp
+++ b/include/INNC/ops.hpp
@@ -245,16 +245,17 @@ void tensor_max(TensorImpl *to, const TensorImpl *from,
                 to_string(from->dlayout).c_str()));
   T *to_ptr = reinterpret_cast<T *>(to->data_->get_blob());
   T *from_ptr = reinterpret_cast<T *>(from->data_->get_blob());
-  *to_ptr = *from_ptr;
+  bool found = false;
   SizeVec max_sv;
-  for_each_sizevec(from->view->sizes, [=, &max_sv](const SizeVec &sv) {
+  for_each_sizevec(from->view->sizes, [=, &found, &max_sv](const SizeVec &sv) {
     T t = *(from_ptr + from->cnt_from_index(sv));
-    if (__LIKELY(*to_ptr >= t))
+    if (__LIKELY(found && *to_ptr >= t))
       return;
+    found = true;
     *to_ptr = t;
     max_sv = sv;
   });
-  if (grad != nullptr)
+  if (grad != nullptr && found)
     *(reinterpret_cast<T *>(grad->data_->get_blob()) +
       grad->cnt_from_index(max_sv)) = 1;
 }
@@ -272,16 +273,17 @@ void tensor_min(TensorImpl *to, const TensorImpl *from,
                 to_string(from->dlayout).c_str()));
   T *to_ptr = reinterpret_cast<T *>(to->data_->get_blob());
   T *from_ptr = reinterpret_cast<T *>(from->data_->get_blob());
-  *to_ptr = *from_ptr;
+  bool found = false;
   SizeVec min_sv;
-  for_each_sizevec(from->view->sizes, [=, &min_sv](const SizeVec &sv) {
+  for_each_sizevec(from->view->sizes, [=, &found, &min_sv](const SizeVec &sv) {
     T t = *(from_ptr + from->cnt_from_index(sv));
-    if (__LIKELY(*to_ptr <= t))
+    if (__LIKELY(found && *to_ptr <= t))
       return;
+    found = true;
     *to_ptr = t;
     min_sv = sv;
   });
-  if (grad != nullptr)
+  if (grad != nullptr && found)
     *(reinterpret_cast<T *>(grad->data_->get_blob()) +
       grad->cnt_from_index(min_sv)) = 1;
 }
-- 
2.43.0


From 361a124468f33b5651e0980a644001e6363f4251 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 00:34:11 +0000
Subject: [PATCH 07/28] fix: apply the chain rule in the gradient of mean

The gradient arriving at the mean was ignored: (a.mean() * 3).backward() gave
1/n instead of 3/n.
---
 src/INNC/function.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/INNC/function.cpp b/src/INNC/function.cpp
index f1b2c36..6b60b0f 100644
--- a/src/INNC/function.cpp
+++ b/src/INNC/function.cpp
@@ -98,7 +98,8 @@ void MeanBack::step_back() {
                       TensorImpl::full(input_tfs[0]->view->sizes,
                                        1. / ((double)input_tfs[0]->numel()),
                                        input_tfs[0]->dtype)
-                          .get());
+                          .get(),
+                      &get_out_grad());
 }
 
 void NoBack::step_back() { try_accumulate_grad(input_tfs[0].get(), nullptr); }
-- 
2.43.0


From b5410f25dbb0885a43e164339361a252744411d7 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 00:34:11 +0000
Subject: [PATCH 08/28] fix: only propagate a quotient's gradient to operands
 that require it

a / 2.0 with only a requiring grad dereferenced the null gradient of the
other operand in backward().
---
 src/INNC/function.cpp | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/INNC/function.cpp b/src/INNC/function.cpp
index 6b60b0f..8250d83 100644
--- a/src/INNC/function.cpp
+++ b/src/INNC/function.cpp
@@ -78,13 +78,17 @@ void tensor_div_back_numerator_f(TensorImpl &dst, TensorImpl &tf1,
                                                                     tf2);
 }
 void DivBack::step_back() {
-  try_accumulate_update(input_tfs[0].get());
-  tensor_div_back_numerator_f(*input_tfs[0]->grad, get_out_grad(),
-                              *input_tfs[1]);
-  try_accumulate_update(input_tfs[1].get());
-  native::tensor_div_back_denominator_helper::dispatch(input_tfs[1]->type(),
-                                                       this_tf->type())(
-      input_tfs[1]->grad.get(), &get_out_grad(), this_tf, input_tfs[1].get());
+  if (input_tfs[0]->requires_grad) {
+    try_accumulate_update(input_tfs[0].get());
+    tensor_div_back_numerator_f(*input_tfs[0]->grad, get_out_grad(),
+                                *input_tfs[1]);
+  }
+  if (input_tfs[1]->requires_grad) {
+    try_accumulate_update(input_tfs[1].get());
+    native::tensor_div_back_denominator_helper::dispatch(input_tfs[1]->type(),
+                                                         this_tf->type())(
+        input_tfs[1]->grad.get(), &get_out_grad(), this_tf, input_tfs[1].get());
+  }
 }
 
 void SumBack::step_back() {
-- 
2.43.0


From 39de0775fb6ab8e559e48b592d526e7dc7ac834e Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 00:34:11 +0000
Subject: [PATCH 09/28] fix: reduce the gradient of a broadcast denominator

It was indexed with the index of the quotient: a {2, 3} / {2, 1} wrote out of
bounds and a {2, 3} / {3} threw.
---
 include/INNC/ops.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/INNC/ops.hpp b/include/INNC/ops.hpp
index 404db10..73b703d 100644
--- a/include/INNC/ops.hpp
+++ b/include/INNC/ops.hpp
@@ -382,7 +382,7 @@ void tensor_div_back_denominator(TensorImpl *dst, const TensorImpl *outgrad,
   auto quot_ptr = reinterpret_cast<Quot *>(quot->data_->get_blob());
   auto den_ptr = reinterpret_cast<Den *>(den->data_->get_blob());
   for_each_sizevec(quot->size(), [=](const SizeVec &sv) {
-    *(dst_ptr + dst->cnt_from_index(sv)) -=
+    *(dst_ptr + dst->cnt_from_aug_index(sv)) -=
         *(outgrad_ptr + outgrad->cnt_from_aug_index(sv)) *
         *(quot_ptr + quot->cnt_from_aug_index(sv)) /
         *(den_ptr + den->cnt_from_aug_index(sv));
-- 
2.43.0


From 16c58afb7bc867a217c538de943af09b35adf9fd Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 00:34:11 +0000
Subject: [PATCH 10/28] fix: let all() look at elements instead of bytes

It read single bytes as bool at unscaled offsets: [1, 2] of type i32 was
reported to contain a zero, and an i8 of 2 is no valid bool.
---
 src/INNC/tensorImpl.cpp | 29 +++++++++++++++++++++++++----
 1 file changed, 25 insertions(+), 4 deletions(-)

diff --git a/src/INNC/tensorImpl.cpp b/src/INNC/tensorImpl.cpp
index d598d6f..42dacc7 100644
--- a/src/INNC/tensorImpl.cpp
+++ b/src/INNC/tensorImpl.cpp
@@ -742,6 +742,25 @@ std::shared_ptr<TensorImpl> TensorImpl::detach() {
   return create(dtype, view, data_, dlayout);
 }
 
+static bool is_nonzero(const uint8_t *ptr, types t) {
+  switch (t) {
+  case i8:
+    return *reinterpret_cast<const std::int8_t *>(ptr) != 0;
+  case i16:
+    return *reinterpret_cast<const std::int16_t *>(ptr) != 0;
+  case i32:
+    return *reinterpret_cast<const std::int32_t *>(ptr) != 0;
+  case i64:
+    return *reinterpret_cast<const std::int64_t *>(ptr) != 0;
+  case f32:
+    return *reinterpret_cast<const float *>(ptr) != 0;
+  case f64:
+    return *reinterpret_cast<const double *>(ptr) != 0;
+  default:
+    throw std::logic_error("type not available");
+  }
+}
+
 bool TensorImpl::all() const {
   if (dlayout == layouts::strided) {
     for (auto r : view->sizes) {
@@ -760,14 +779,16 @@ bool TensorImpl::all() const {
           sv[ptr] = 0;
           ++sv[--ptr];
         }
-        if (!*reinterpret_cast<bool *>(
-                (data_->get_blob() + cnt_from_index(sv))))
+        if (!is_nonzero(data_->get_blob() +
+                            cnt_from_index(sv) * size_of(dtype),
+                        dtype))
           return false;
         ++sv[last_idx];
       };
     } else {
-      return *reinterpret_cast<bool *>(
-          (data_->get_blob() + cnt_from_index(SizeVec{})));
+      return is_nonzero(data_->get_blob() +
+                            cnt_from_index(SizeVec{}) * size_of(dtype),
+                        dtype);
     }
   } else {
     throw std::logic_error(
-- 
2.43.0


From 4fa0b7ed584f78ab603cfad90d92950428ac7585 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 00:34:11 +0000
Subject: [PATCH 11/28] fix: return the reshaped single element when it
 requires grad

The function fell through and read the last stride of a scalar, which has
none.
---
 src/INNC/tensorImpl.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/INNC/tensorImpl.cpp b/src/INNC/tensorImpl.cpp
index 42dacc7..db5423b 100644
--- a/src/INNC/tensorImpl.cpp
+++ b/src/INNC/tensorImpl.cpp
@@ -655,6 +655,7 @@ TensorImpl::reshape(const std::shared_ptr<TensorImpl> &input,
     tf->requires_grad = true;
     tf->grad_fn.reset(new NoBack(tf.get(), {input}));
     share_grad_storage(*tf, *input);
+    return tf;
   }
 
   bool isometry = true;
-- 
2.43.0


From 84764ebc0f9c1fefbd6d2478ea6620cd3fbd5989 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 00:34:11 +0000
Subject: [PATCH 12/28] fix: reject impossible sizes in reshape

reshape({0, -1}) divided by zero, and reshape({-2, -3}) of six elements was
accepted because the product of two negative sizes is positive.
---
 src/INNC/tensorImpl.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/INNC/tensorImpl.cpp b/src/INNC/tensorImpl.cpp
index db5423b..adc6faa 100644
--- a/src/INNC/tensorImpl.cpp
+++ b/src/INNC/tensorImpl.cpp
@@ -609,14 +609,16 @@ SizeVec regularize_size(const SignedVec &sizes, size_t numel = 0) {
                  "Cannot have more than two minus ones in size.");
       minus_one_exist = true;
       minus_one_index = i;
-    }
+    } else
+      run_expect(sizes_[i] >= 0, "Size ", sizes_[i], " is negative.");
   }
   if (minus_one_exist) {
     size_t s = 1;
     for (size_t i = 0; i < sizes_.size(); i++)
       if (i != minus_one_index)
         s *= sizes_[i];
-    run_expect(numel % s == 0, "The input of sizes and numel is illegal.");
+    run_expect(s != 0 && numel % s == 0,
+               "The input of sizes and numel is illegal.");
     sizes_[minus_one_index] = numel / s;
   }
   SizeVec sizes__;
-- 
2.43.0


From 759c5371fad4d20516885b828315f807fac30d7e Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 00:34:11 +0000
Subject: [PATCH 13/28] fix: reject an empty list in cat

It read the first element of the empty list.
---
 src/INNC/tensorImpl.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/INNC/tensorImpl.cpp b/src/INNC/tensorImpl.cpp
index adc6faa..20bb179 100644
--- a/src/INNC/tensorImpl.cpp
+++ b/src/INNC/tensorImpl.cpp
@@ -830,6 +830,7 @@ std::shared_ptr<TensorImpl> TensorImpl::randn_like(const TensorImpl &t) {
 std::shared_ptr<TensorImpl>
 TensorImpl::cat(const std::vector<std::shared_ptr<INNC::TensorImpl>> &input_ts,
                 const size_t dim) {
+  run_expect(!input_ts.empty(), "There is nothing to cat.");
   run_expect(dim >= 0 && dim < input_ts[0]->dim(),
              "you give out a illegal dim");
   for (size_t i = 1; i < input_ts.size(); i++) {
-- 
2.43.0


From f1bd2ca4418038da478b02f781e00efbe49bd339 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 00:34:11 +0000
Subject: [PATCH 14/28] fix: keep the type of the operand in unary minus

char(0) promotes to int, so that the negation of an i8 or i16 tensor was an
i32 tensor.
---
 src/INNC/tensorImpl.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/INNC/tensorImpl.cpp b/src/INNC/tensorImpl.cpp
index 20bb179..bac4b2c 100644
--- a/src/INNC/tensorImpl.cpp
+++ b/src/INNC/tensorImpl.cpp
@@ -145,7 +145,7 @@ std::shared_ptr<TensorImpl> TensorImpl::operator+() {
 }
 
 std::shared_ptr<TensorImpl> TensorImpl::operator-() {
-  return *create(char(0)) - *this;
+  return *create(std::int8_t(0)) - *this;
 }
 
 std::shared_ptr<TensorImpl> operator+(TensorImpl &l, TensorImpl &r) {
-- 
2.43.0


From e8a66289da3ee3f8c51f014e94c3a303004ec75a Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 00:34:11 +0000
Subject: [PATCH 15/28] fix: avoid overflow for huge slice steps

The step was multiplied with the stride and its absolute value taken without
any bound, which is undefined for steps near the limits of long long.
---
 src/INNC/tensorImpl.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/INNC/tensorImpl.cpp b/src/INNC/tensorImpl.cpp
index bac4b2c..d6f2a14 100644
--- a/src/INNC/tensorImpl.cpp
+++ b/src/INNC/tensorImpl.cpp
@@ -10,6 +10,7 @@
 #include "INNC/utils/rand.hpp"
 #include "INNC/utils/traits.hpp"
 #include "INNC/utils/utils.hpp"
+#include <algorithm>
 #include <cstring>
 #include <queue>
 
@@ -494,6 +495,9 @@ std::shared_ptr<TensorImpl> TensorImpl::operator[](const std::string &slice) {
           run_expect(step != 0, "slice step cannot be zero");
         } else
           step = 1;
+        // A step beyond the size selects one element at most.
+        step = std::clamp(step, -static_cast<long long>(sizes[dim]),
+                          static_cast<long long>(sizes[dim]));
         if (split_slice[0].size() != 0) {
           beg = stoll(split_slice[0]);
           if (beg < 0)
-- 
2.43.0


From ddabcdc31ae8be9ea2af1744d656f91657169c85 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 00:34:11 +0000
Subject: [PATCH 16/28] fix: throw on integer division by zero

The process was killed by SIGFPE.
---
 include/INNC/ops.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/INNC/ops.hpp b/include/INNC/ops.hpp
index 73b703d..d334f18 100644
--- a/include/INNC/ops.hpp
+++ b/include/INNC/ops.hpp
@@ -1,5 +1,6 @@
 #pragma once
 #include "INNC/dispatcher.hpp"
+#include "INNC/exceptions.hpp"
 #include "INNC/tensorImpl.hpp"
 #include "INNC/types.hpp"
 #include "INNC/utils/utils.hpp"
@@ -54,6 +55,9 @@ void tensor_div(TensorImpl *dst, const TensorImpl *l, const TensorImpl *r) {
   auto l_ptr = reinterpret_cast<L *>(l->data_->get_blob());
   auto r_ptr = reinterpret_cast<R *>(r->data_->get_blob());
   for_each_sizevec(dst->view->sizes, [=](const SizeVec &sv) {
+    if constexpr (std::is_integral_v<L> && std::is_integral_v<R>)
+      run_expect(*(r_ptr + r->cnt_from_aug_index(sv)) != 0,
+                 "Integer division by zero.");
     *(dst_ptr + dst->cnt_from_aug_index(sv)) =
         *(l_ptr + l->cnt_from_aug_index(sv)) /
         *(r_ptr + r->cnt_from_aug_index(sv));
-- 
2.43.0


From 8fcfdec14b67e2d3e87428c55e7f6f73429bf01c Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 00:34:11 +0000
Subject: [PATCH 17/28] fix: reject empty initializers within an initializer

Their type was uninitialized and one element was copied from a null
pointer.
---
 include/INNC/tensor.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/INNC/tensor.hpp b/include/INNC/tensor.hpp
index 68f4ab4..7089a4e 100644
--- a/include/INNC/tensor.hpp
+++ b/include/INNC/tensor.hpp
@@ -125,7 +125,7 @@ public:
 class TensorInit {
   std::unique_ptr<uint8_t[]> data_ptr;
   SizeVec shape;
-  types dtype;
+  types dtype = types::i8;
   static inline bool is_same_spec(const TensorInit &lhs,
                                   const TensorInit &rhs) noexcept {
     return lhs.shape == rhs.shape && lhs.dtype == rhs.dtype;
@@ -155,6 +155,8 @@ public:
     } else
       return;
     auto first_sub = args.begin();
+    if (first_sub->shape.empty()) [[unlikely]]
+      throw std::invalid_argument("Subtensors must not be empty");
     if (!std::all_of(args.begin(), args.end(), [first_sub](const auto &lhs) {
           return is_same_spec(lhs, *first_sub);
         })) [[unlikely]]
-- 
2.43.0


From a669227e2db5860bc4835a86ae7f6280425a1044 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 00:35:43 +0000
Subject: [PATCH 18/28] fix: give views a gradient of their own and add it to
 their base's

A view shared the gradient storage of its base. backward() from a view lost
the gradient, a retained gradient of a view showed what its base received
otherwise, zero_grad() of a view cleared its whole base's gradient, slicing
made grad() return a tensor without data, and the gradient of a leaf that is
itself a view of other data was allocated too small for its offset. A view
now takes the same view of its base's gradient in backward().
---
 include/INNC/function.hpp | 11 ++++++++++-
 src/INNC/function.cpp     | 15 +++++++++++++--
 src/INNC/tensorImpl.cpp   | 33 +++++++++++++--------------------
 3 files changed, 36 insertions(+), 23 deletions(-)

diff --git a/include/INNC/function.hpp b/include/INNC/function.hpp
index 3201c52..334bd5c 100644
--- a/include/INNC/function.hpp
+++ b/include/INNC/function.hpp
@@ -1,6 +1,7 @@
 #pragma once
 
 #include "tensor.hpp"
+#include <functional>
 #include <memory>
 
 namespace INNC {
@@ -62,10 +63,18 @@ public:
   void step_back() override;
 };
 
+// Backward of a view. `view_of` takes the same view of the input's gradient.
 class NoBack : public Backward {
 public:
-  using Backward::Backward;
+  using ViewFn = std::function<std::shared_ptr<TensorImpl>(
+      const std::shared_ptr<TensorImpl> &)>;
+  NoBack(TensorImpl *this_tf,
+         const std::vector<std::shared_ptr<INNC::TensorImpl>> &input_tfs,
+         ViewFn view_of);
   void step_back() override;
+
+private:
+  ViewFn view_of;
 };
 
 class CloneBack : public Backward {
diff --git a/src/INNC/function.cpp b/src/INNC/function.cpp
index 8250d83..5467f47 100644
--- a/src/INNC/function.cpp
+++ b/src/INNC/function.cpp
@@ -44,7 +44,8 @@ void Backward::try_accumulate_update(TensorImpl *tf_prev, bool zero_init) {
   if (tf_prev->grad_fn.get() != nullptr)
     ++tf_prev->grad_fn->accumulated_n_outway;
   if (tf_prev->grad.get() == nullptr) {
-    tf_prev->grad = TensorImpl::create(tf_prev->dtype, tf_prev->view);
+    tf_prev->grad =
+        TensorImpl::create(tf_prev->dtype, StridedLayout{tf_prev->view->sizes});
     if (zero_init)
       tf_prev->grad->data_->zero_();
   } else if (!tf_prev->grad->data_->is_alloc()) {
@@ -106,7 +107,17 @@ void MeanBack::step_back() {
                       &get_out_grad());
 }
 
-void NoBack::step_back() { try_accumulate_grad(input_tfs[0].get(), nullptr); }
+NoBack::NoBack(TensorImpl *this_tf,
+               const std::vector<std::shared_ptr<INNC::TensorImpl>> &input_tfs,
+               ViewFn view_of)
+    : Backward(this_tf, input_tfs), view_of(std::move(view_of)) {}
+
+void NoBack::step_back() {
+  if (!input_tfs[0]->requires_grad)
+    return;
+  try_accumulate_grad(input_tfs[0].get(), nullptr);
+  *view_of(input_tfs[0]->grad) += get_out_grad();
+}
 
 void CloneBack::step_back() {
   try_accumulate_grad(input_tfs[0].get(), &get_out_grad());
diff --git a/src/INNC/tensorImpl.cpp b/src/INNC/tensorImpl.cpp
index d6f2a14..957f479 100644
--- a/src/INNC/tensorImpl.cpp
+++ b/src/INNC/tensorImpl.cpp
@@ -441,18 +441,6 @@ void TensorImpl::zero_grad() const noexcept {
   grad->data_->zero_();
 }
 
-void share_grad_storage(TensorImpl &to, TensorImpl &from,
-                        const std::shared_ptr<Layout> &view) {
-  if (from.grad == nullptr) {
-    from.grad = TensorImpl::create(from.dtype, from.view, false);
-  }
-  to.grad = TensorImpl::create(to.dtype, view, from.grad->data_);
-}
-
-void share_grad_storage(TensorImpl &to, TensorImpl &from) {
-  share_grad_storage(to, from, to.view);
-}
-
 std::shared_ptr<TensorImpl> TensorImpl::operator[](const std::string &slice) {
   if (dlayout == layouts::strided) {
     std::vector<std::string> each_dim = ssplit(slice, ',');
@@ -560,8 +548,9 @@ std::shared_ptr<TensorImpl> TensorImpl::operator[](const std::string &slice) {
     if (!requires_grad)
       return ret;
     ret->requires_grad = true;
-    ret->grad_fn.reset(new NoBack(ret.get(), {shared_from_this()}));
-    share_grad_storage(*ret, *this);
+    ret->grad_fn.reset(
+        new NoBack(ret.get(), {shared_from_this()},
+                   [slice](const auto &grad) { return (*grad)[slice]; }));
     return ret;
   } else {
     throw std::runtime_error("Not implemented");
@@ -592,8 +581,10 @@ TensorImpl::transpose(const std::shared_ptr<TensorImpl> &input, size_t dim0,
   if (!input->requires_grad)
     return ret;
   ret->requires_grad = true;
-  ret->grad_fn.reset(new NoBack(ret.get(), {input}));
-  share_grad_storage(*ret, *input);
+  ret->grad_fn.reset(
+      new NoBack(ret.get(), {input}, [dim0, dim1](const auto &grad) {
+        return transpose(grad, dim0, dim1);
+      }));
   return ret;
 }
 
@@ -659,8 +650,9 @@ TensorImpl::reshape(const std::shared_ptr<TensorImpl> &input,
     if (!input->requires_grad)
       return tf;
     tf->requires_grad = true;
-    tf->grad_fn.reset(new NoBack(tf.get(), {input}));
-    share_grad_storage(*tf, *input);
+    tf->grad_fn.reset(new NoBack(
+        tf.get(), {input},
+        [sizes](const auto &grad) { return reshape(grad, sizes); }));
     return tf;
   }
 
@@ -703,8 +695,9 @@ TensorImpl::reshape(const std::shared_ptr<TensorImpl> &input,
   if (!input->requires_grad)
     return tf;
   tf->requires_grad = true;
-  tf->grad_fn.reset(new NoBack(tf.get(), {last_node}));
-  share_grad_storage(*tf, *last_node);
+  tf->grad_fn.reset(
+      new NoBack(tf.get(), {last_node},
+                 [sizes](const auto &grad) { return reshape(grad, sizes); }));
   return tf;
 }
 
-- 
2.43.0


From c06dd9664d350461f52ab459880ec6525b425d43 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 00:36:37 +0000
Subject: [PATCH 19/28] fix: do not wait for gradients that never arrive

Tensors whose requires_grad was switched off pass no gradient on, but were
counted as if they did: what they depend on never became ready, and leaves
reached through other paths lost their gradient.
---
 src/INNC/tensorImpl.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/INNC/tensorImpl.cpp b/src/INNC/tensorImpl.cpp
index 957f479..a310bf5 100644
--- a/src/INNC/tensorImpl.cpp
+++ b/src/INNC/tensorImpl.cpp
@@ -308,7 +308,7 @@ void refresh_n_outway(TensorImpl *tf) {
     auto t = q.front();
     q.pop();
     for (const auto &it : t->grad_fn->input_tfs) {
-      if (__LIKELY(it->grad_fn.get() != nullptr &&
+      if (__LIKELY(it->requires_grad && it->grad_fn.get() != nullptr &&
                    it->grad_fn->back_version < Backward::global_back_version)) {
         it->grad_fn->back_version = Backward::global_back_version;
         it->grad_fn->n_outway = 0;
@@ -322,7 +322,7 @@ void refresh_n_outway(TensorImpl *tf) {
     auto t = q.front();
     q.pop();
     for (const auto &it : t->grad_fn->input_tfs) {
-      if (it->grad_fn.get() == nullptr)
+      if (!it->requires_grad || it->grad_fn.get() == nullptr)
         continue;
       ++it->grad_fn->n_outway;
       if (__LIKELY(it->grad_fn->back_version < Backward::global_back_version)) {
@@ -352,7 +352,7 @@ void TensorImpl::backward() {
     if (!t->retain_grad)
       t->grad.reset();
     for (const auto &it : t->grad_fn->input_tfs) {
-      if (it->grad_fn.get() != nullptr &&
+      if (it->requires_grad && it->grad_fn.get() != nullptr &&
           it->grad_fn->back_version < Backward::global_back_version &&
           it->grad_fn->is_ready()) {
         it->grad_fn->back_version = Backward::global_back_version;
-- 
2.43.0


From fe423ef5994b8eebfb6b0b4a0882e30dfec41810 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 00:36:37 +0000
Subject: [PATCH 20/28] fix: allow backward() on independent graphs in several
 threads

The graph version was a plain global that each pass increments and compares
with while it runs: passes in different threads raced on it and could skip
nodes of their own graphs.
---
 include/INNC/function.hpp |  3 ++-
 src/INNC/function.cpp     |  2 +-
 src/INNC/tensorImpl.cpp   | 21 ++++++++++++---------
 3 files changed, 15 insertions(+), 11 deletions(-)

diff --git a/include/INNC/function.hpp b/include/INNC/function.hpp
index 334bd5c..1734087 100644
--- a/include/INNC/function.hpp
+++ b/include/INNC/function.hpp
@@ -1,6 +1,7 @@
 #pragma once
 
 #include "tensor.hpp"
+#include <atomic>
 #include <functional>
 #include <memory>
 
@@ -13,7 +14,7 @@ public:
   TensorImpl *this_tf;
   size_t n_outway;
   size_t accumulated_n_outway; // TODO partial graph
-  static size_t global_back_version;
+  static std::atomic<size_t> global_back_version;
   size_t back_version;
 
   Backward(TensorImpl *this_tf,
diff --git a/src/INNC/function.cpp b/src/INNC/function.cpp
index 5467f47..809bb21 100644
--- a/src/INNC/function.cpp
+++ b/src/INNC/function.cpp
@@ -9,7 +9,7 @@
 
 namespace INNC {
 
-size_t Backward::global_back_version = 0;
+std::atomic<size_t> Backward::global_back_version = 0;
 
 Backward::Backward(
     TensorImpl *this_tf,
diff --git a/src/INNC/tensorImpl.cpp b/src/INNC/tensorImpl.cpp
index a310bf5..23d5a95 100644
--- a/src/INNC/tensorImpl.cpp
+++ b/src/INNC/tensorImpl.cpp
@@ -302,21 +302,23 @@ std::shared_ptr<TensorImpl> TensorImpl::type(types t) {
 void refresh_n_outway(TensorImpl *tf) {
   std::queue<TensorImpl *> q;
   tf->grad_fn->n_outway = 0;
-  tf->grad_fn->back_version = ++Backward::global_back_version;
+  size_t version = ++Backward::global_back_version;
+  tf->grad_fn->back_version = version;
   q.push(tf);
   while (!q.empty()) {
     auto t = q.front();
     q.pop();
     for (const auto &it : t->grad_fn->input_tfs) {
       if (__LIKELY(it->requires_grad && it->grad_fn.get() != nullptr &&
-                   it->grad_fn->back_version < Backward::global_back_version)) {
-        it->grad_fn->back_version = Backward::global_back_version;
+                   it->grad_fn->back_version < version)) {
+        it->grad_fn->back_version = version;
         it->grad_fn->n_outway = 0;
         q.push(it.get());
       }
     }
   }
-  tf->grad_fn->back_version = ++Backward::global_back_version;
+  version = ++Backward::global_back_version;
+  tf->grad_fn->back_version = version;
   q.push(tf);
   while (!q.empty()) {
     auto t = q.front();
@@ -325,8 +327,8 @@ void refresh_n_outway(TensorImpl *tf) {
       if (!it->requires_grad || it->grad_fn.get() == nullptr)
         continue;
       ++it->grad_fn->n_outway;
-      if (__LIKELY(it->grad_fn->back_version < Backward::global_back_version)) {
-        it->grad_fn->back_version = Backward::global_back_version;
+      if (__LIKELY(it->grad_fn->back_version < version)) {
+        it->grad_fn->back_version = version;
         q.push(it.get());
       }
     }
@@ -344,7 +346,8 @@ void TensorImpl::backward() {
   std::queue<TensorImpl *> q; // TODO 3 multiprocessing
   q.push(this);
   grad = ones_like(*this);
-  grad_fn->back_version = ++Backward::global_back_version;
+  const size_t version = ++Backward::global_back_version;
+  grad_fn->back_version = version;
   while (!q.empty()) {
     auto t = q.front();
     q.pop();
@@ -353,9 +356,9 @@ void TensorImpl::backward() {
       t->grad.reset();
     for (const auto &it : t->grad_fn->input_tfs) {
       if (it->requires_grad && it->grad_fn.get() != nullptr &&
-          it->grad_fn->back_version < Backward::global_back_version &&
+          it->grad_fn->back_version < version &&
           it->grad_fn->is_ready()) {
-        it->grad_fn->back_version = Backward::global_back_version;
+        it->grad_fn->back_version = version;
         q.push(it.get());
       }
     }
-- 
2.43.0


From 7b7cafa0f15983e296223c150e476b7e0837b155 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 00:36:37 +0000
Subject: [PATCH 21/28] fix: give each thread a random number generator

randn in several threads raced on the state of one global generator.
---
 include/INNC/utils/rand.hpp | 2 +-
 src/INNC/utils/rand.cpp     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/INNC/utils/rand.hpp b/include/INNC/utils/rand.hpp
index 5dc766d..8cbf8fb 100644
--- a/include/INNC/utils/rand.hpp
+++ b/include/INNC/utils/rand.hpp
@@ -1,5 +1,5 @@
 #include <random>
 
 namespace INNC {
-extern std::mt19937 rng;
+extern thread_local std::mt19937 rng;
 }
diff --git a/src/INNC/utils/rand.cpp b/src/INNC/utils/rand.cpp
index c8bdea5..251d76d 100644
--- a/src/INNC/utils/rand.cpp
+++ b/src/INNC/utils/rand.cpp
@@ -1,5 +1,5 @@
 #include "INNC/utils/rand.hpp"
 
 namespace INNC {
-std::mt19937 rng{std::random_device{}()};
+thread_local std::mt19937 rng{std::random_device{}()};
 }
-- 
2.43.0


From a0374d75bec80e7572d967a657da232c29a7809c Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 00:36:37 +0000
Subject: [PATCH 22/28] fix: free long graphs without recursion

Dropping the last handle of a tensor recursed once per recorded operation and
overflowed the stack for chains of some ten thousand operations.
---
 src/INNC/tensorImpl.cpp | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/src/INNC/tensorImpl.cpp b/src/INNC/tensorImpl.cpp
index 23d5a95..7becad6 100644
--- a/src/INNC/tensorImpl.cpp
+++ b/src/INNC/tensorImpl.cpp
@@ -68,7 +68,25 @@ std::string TensorImpl::to_string() const {
   return view->to_string_from(*data_, dtype);
 }
 
-TensorImpl::~TensorImpl() = default;
+TensorImpl::~TensorImpl() {
+  // Free the graph behind this tensor in a loop, as recursion would exhaust
+  // the stack on long chains of operations.
+  std::vector<std::shared_ptr<TensorImpl>> pending;
+  auto unlink = [&pending](TensorImpl &t) {
+    if (t.grad_fn == nullptr)
+      return;
+    for (auto &it : t.grad_fn->input_tfs)
+      pending.push_back(std::move(it));
+    t.grad_fn.reset();
+  };
+  unlink(*this);
+  while (!pending.empty()) {
+    auto t = std::move(pending.back());
+    pending.pop_back();
+    if (t.use_count() == 1)
+      unlink(*t);
+  }
+}
 
 TensorImpl::TensorImpl(types dtype, layouts dlayout,
                        const std::shared_ptr<Layout> &view,
-- 
2.43.0


From 67fd8cae97693565bb230223981ad1a371861a2e Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 00:36:37 +0000
Subject: [PATCH 23/28] fix: reject in-place addition of a larger tensor

{1} += {3} silently added all three elements to the only one on the left.
---
 src/INNC/tensor.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/INNC/tensor.cpp b/src/INNC/tensor.cpp
index 8e4a935..261675a 100644
--- a/src/INNC/tensor.cpp
+++ b/src/INNC/tensor.cpp
@@ -5,6 +5,7 @@
 #include "INNC/tensorImpl.hpp"
 #include "INNC/types.hpp"
 #include "INNC/utils/traits.hpp"
+#include "INNC/utils/utils.hpp"
 
 namespace INNC {
 Tensor::Tensor() = default;
@@ -79,6 +80,8 @@ INNC::types Tensor::type() const { return fptr->type(); }
 Tensor Tensor::type(types t) { return Tensor(fptr->type(t)); }
 
 Tensor &Tensor::operator+=(const Tensor &rhs) {
+  run_expect(broadcast_range(size(), rhs.size()) == size(), "Size ", rhs.size(),
+             " cannot be broadcast to size ", size(), ".");
   *fptr += *rhs.fptr;
   return *this;
 }
-- 
2.43.0


From 1e303cf92cd13b557a47d7f6ba2db4945db9157f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:09:58 +0000
Subject: [PATCH 24/28] fix: reject malformed slices everywhere

Text behind a number, more than three parts, and anything malformed in
parts that were not looked at (empty dimensions, ranges that are empty
already) was accepted.
---
 src/INNC/tensorImpl.cpp | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/src/INNC/tensorImpl.cpp b/src/INNC/tensorImpl.cpp
index 7becad6..cb244f6 100644
--- a/src/INNC/tensorImpl.cpp
+++ b/src/INNC/tensorImpl.cpp
@@ -462,6 +462,14 @@ void TensorImpl::zero_grad() const noexcept {
   grad->data_->zero_();
 }
 
+// Unlike std::stoll alone, accepts nothing behind the number.
+static long long parse_integer(const std::string &s) {
+  size_t end;
+  long long num = std::stoll(s, &end);
+  run_expect(end == s.size(), "\"", s, "\" is not an integer.");
+  return num;
+}
+
 std::shared_ptr<TensorImpl> TensorImpl::operator[](const std::string &slice) {
   if (dlayout == layouts::strided) {
     std::vector<std::string> each_dim = ssplit(slice, ',');
@@ -483,7 +491,7 @@ std::shared_ptr<TensorImpl> TensorImpl::operator[](const std::string &slice) {
       } else
         split_slice = {"", "", ""};
       if (split_slice.size() == 1) { // like a[-2]
-        long long idx = std::stoll(split_slice[0]);
+        long long idx = parse_integer(split_slice[0]);
         if (idx < 0)
           idx += sizes[dim];
         run_expect(idx >= 0 && idx < static_cast<long long>(sizes[dim]),
@@ -491,11 +499,11 @@ std::shared_ptr<TensorImpl> TensorImpl::operator[](const std::string &slice) {
                    " with size ", sizes[dim]);
         _offset += strides[dim] * idx;
       } else { // like a[-2:]
-        if (sizes[dim] == 0) {
-          _sizes.push_back(0);
-          _strides.push_back(0);
-          continue;
-        }
+        run_expect(split_slice.size() <= 3, "\"", slice,
+                   "\" has more than three parts.");
+        for (const auto &s : split_slice)
+          if (s.size() != 0)
+            parse_integer(s);
         for (int i = split_slice.size(); i < 3; ++i)
           split_slice.push_back("");
         long long step, beg, end;
@@ -504,6 +512,11 @@ std::shared_ptr<TensorImpl> TensorImpl::operator[](const std::string &slice) {
           run_expect(step != 0, "slice step cannot be zero");
         } else
           step = 1;
+        if (sizes[dim] == 0) {
+          _sizes.push_back(0);
+          _strides.push_back(0);
+          continue;
+        }
         // A step beyond the size selects one element at most.
         step = std::clamp(step, -static_cast<long long>(sizes[dim]),
                           static_cast<long long>(sizes[dim]));
-- 
2.43.0


From 8d4c19bff9d8739a36bf8a66038726570075fd5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:09:58 +0000
Subject: [PATCH 25/28] fix: reject sizes whose product overflows

Tensors of such sizes were created with less memory than their elements
need, and reshape accepted them as equal to any number of elements.
---
 include/INNC/layouts.hpp |  3 +++
 src/INNC/layouts.cpp     | 14 ++++++++++++++
 src/INNC/tensorImpl.cpp  |  4 +---
 3 files changed, 18 insertions(+), 3 deletions(-)

diff --git a/include/INNC/layouts.hpp b/include/INNC/layouts.hpp
index bcec5ab..b024c28 100644
--- a/include/INNC/layouts.hpp
+++ b/include/INNC/layouts.hpp
@@ -27,6 +27,9 @@ public:
   virtual std::shared_ptr<TensorImpl> contiguous_from(TensorImpl &t) = 0;
 };
 
+/** @brief The product of the sizes. Throws if it is out of range. */
+size_t checked_numel(const SizeVec &sizes);
+
 class StridedLayout : public Layout {
   std::string to_string_from_helper(const UntypedStorage &data_, types dtype,
                                     std::ptrdiff_t offset = 0,
diff --git a/src/INNC/layouts.cpp b/src/INNC/layouts.cpp
index fd9677c..1b597e6 100644
--- a/src/INNC/layouts.cpp
+++ b/src/INNC/layouts.cpp
@@ -3,6 +3,8 @@
 #include "INNC/storage.hpp"
 #include "INNC/tensorImpl.hpp"
 #include "INNC/types.hpp"
+#include <algorithm>
+#include <cstdint>
 
 namespace INNC {
 
@@ -27,7 +29,19 @@ size_t Layout::numel() const noexcept {
 
 StridedLayout::StridedLayout() = default;
 
+size_t checked_numel(const SizeVec &sizes) {
+  // Zeros are left out: the strides are products of the sizes as well.
+  size_t range = PTRDIFF_MAX / sizeof(double), num = 1;
+  for (auto s : sizes) {
+    run_expect(s == 0 || num <= range / s, "The size ", sizes,
+               " is too large.");
+    num *= s == 0 ? 1 : s;
+  }
+  return std::find(sizes.begin(), sizes.end(), 0) == sizes.end() ? num : 0;
+}
+
 StridedLayout::StridedLayout(const SizeVec &sizes) : Layout(sizes), offset(0) {
+  checked_numel(sizes);
   auto sn = sizes.size();
   if (sn == 0)
     return;
diff --git a/src/INNC/tensorImpl.cpp b/src/INNC/tensorImpl.cpp
index cb244f6..0fa6e79 100644
--- a/src/INNC/tensorImpl.cpp
+++ b/src/INNC/tensorImpl.cpp
@@ -660,9 +660,7 @@ SizeVec regularize_size(const SignedVec &sizes, size_t numel = 0) {
 std::shared_ptr<TensorImpl>
 TensorImpl::reshape(const std::shared_ptr<TensorImpl> &input,
                     const SizeVec &sizes) {
-  size_t numel = 1;
-  for (auto i : sizes)
-    numel *= i;
+  size_t numel = checked_numel(sizes);
   if (input->dlayout != layouts::strided)
     throw std::logic_error(
         sformat("This layout %s has not been implemented", layouts::sparse));
-- 
2.43.0


From 5bb24ab997914bee6f830fc69565006345864d94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:09:10 +0000
Subject: [PATCH 26/28] fix: free graphs without allocating memory

---
 include/INNC/function.hpp |  1 +
 src/INNC/function.cpp     |  2 +-
 src/INNC/tensorImpl.cpp   | 30 +++++++++++++++---------------
 3 files changed, 17 insertions(+), 16 deletions(-)

diff --git a/include/INNC/function.hpp b/include/INNC/function.hpp
index 1734087..1bdf4d0 100644
--- a/include/INNC/function.hpp
+++ b/include/INNC/function.hpp
@@ -16,6 +16,7 @@ public:
   size_t accumulated_n_outway; // TODO partial graph
   static std::atomic<size_t> global_back_version;
   size_t back_version;
+  Backward *next; // only used while a graph is freed
 
   Backward(TensorImpl *this_tf,
            const std::vector<std::shared_ptr<INNC::TensorImpl>> &input_tfs);
diff --git a/src/INNC/function.cpp b/src/INNC/function.cpp
index 809bb21..3cad24c 100644
--- a/src/INNC/function.cpp
+++ b/src/INNC/function.cpp
@@ -15,7 +15,7 @@ Backward::Backward(
     TensorImpl *this_tf,
     const std::vector<std::shared_ptr<INNC::TensorImpl>> &input_tfs)
     : input_tfs(input_tfs), this_tf(this_tf), n_outway(0),
-      accumulated_n_outway(0), back_version(0) {}
+      accumulated_n_outway(0), back_version(0), next(nullptr) {}
 
 Backward::~Backward() = default;
 
diff --git a/src/INNC/tensorImpl.cpp b/src/INNC/tensorImpl.cpp
index 0fa6e79..6bd2ec6 100644
--- a/src/INNC/tensorImpl.cpp
+++ b/src/INNC/tensorImpl.cpp
@@ -70,22 +70,22 @@ std::string TensorImpl::to_string() const {
 
 TensorImpl::~TensorImpl() {
   // Free the graph behind this tensor in a loop, as recursion would exhaust
-  // the stack on long chains of operations.
-  std::vector<std::shared_ptr<TensorImpl>> pending;
-  auto unlink = [&pending](TensorImpl &t) {
-    if (t.grad_fn == nullptr)
-      return;
-    for (auto &it : t.grad_fn->input_tfs)
-      pending.push_back(std::move(it));
-    t.grad_fn.reset();
-  };
-  unlink(*this);
-  while (!pending.empty()) {
-    auto t = std::move(pending.back());
-    pending.pop_back();
-    if (t.use_count() == 1)
-      unlink(*t);
+  // the stack on long chains of operations. Nothing is allocated for that, as
+  // memory might be exhausted, too.
+  if (grad_fn == nullptr)
+    return;
+  thread_local Backward *pending = nullptr;
+  thread_local bool freeing = false;
+  grad_fn->next = pending;
+  pending = grad_fn.release();
+  if (freeing)
+    return;
+  freeing = true;
+  while (pending != nullptr) {
+    std::unique_ptr<Backward> fn(pending);
+    pending = fn->next;
   }
+  freeing = false;
 }
 
 TensorImpl::TensorImpl(types dtype, layouts dlayout,
-- 
2.43.0


From 45e828539714d81d3a22749326ecd94fb0476a91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:13:05 +0000
Subject: [PATCH 27/28] fix: let formatting of sizes report exhausted memory

---
 include/INNC/types.hpp | 9 ++++-----
 src/INNC/types.cpp     | 8 ++++----
 2 files changed, 8 insertions(+), 9 deletions(-)

diff --git a/include/INNC/types.hpp b/include/INNC/types.hpp
index a9dcb74..b46b232 100644
--- a/include/INNC/types.hpp
+++ b/include/INNC/types.hpp
@@ -135,8 +135,8 @@ public:
   SizeVec();
   SizeVec(const std::initializer_list<size_t> &init_list);
   SizeVec(is_same_wo_cvref<std::vector<int>> auto &&vec);
-  friend std::ostream &operator<<(std::ostream &o, const SizeVec &sv) noexcept;
-  std::string to_string() const noexcept;
+  friend std::ostream &operator<<(std::ostream &o, const SizeVec &sv);
+  std::string to_string() const;
 };
 
 class SignedVec : public std::vector<long long> {
@@ -144,9 +144,8 @@ public:
   SignedVec();
   SignedVec(const std::initializer_list<long long> &init_list);
   SignedVec(is_same_wo_cvref<std::vector<int>> auto &&vec);
-  friend std::ostream &operator<<(std::ostream &o,
-                                  const SignedVec &sv) noexcept;
-  std::string to_string() const noexcept;
+  friend std::ostream &operator<<(std::ostream &o, const SignedVec &sv);
+  std::string to_string() const;
 };
 
 }; // namespace INNC
diff --git a/src/INNC/types.cpp b/src/INNC/types.cpp
index 0217700..aa26a64 100644
--- a/src/INNC/types.cpp
+++ b/src/INNC/types.cpp
@@ -60,19 +60,19 @@ std::string iter_to_string(const auto &it) {
   return s + "]";
 }
 
-std::string SizeVec::to_string() const noexcept {
+std::string SizeVec::to_string() const {
   return iter_to_string(*this);
 }
 
-std::string SignedVec::to_string() const noexcept {
+std::string SignedVec::to_string() const {
   return iter_to_string(*this);
 }
 
-std::ostream &operator<<(std::ostream &o, const SizeVec &sv) noexcept {
+std::ostream &operator<<(std::ostream &o, const SizeVec &sv) {
   return o << sv.to_string();
 }
 
-std::ostream &operator<<(std::ostream &o, const SignedVec &sv) noexcept {
+std::ostream &operator<<(std::ostream &o, const SignedVec &sv) {
   return o << sv.to_string();
 }
 
-- 
2.43.0


From 6f52c271cfe0af22fdc4c65ceadfb3bf36f52fee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:15:17 +0000
Subject: [PATCH 28/28] fix: free the buffer of sformat when memory is
 exhausted

---
 include/INNC/utils/utils.hpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/include/INNC/utils/utils.hpp b/include/INNC/utils/utils.hpp
index aa8ff65..9d0fa57 100644
--- a/include/INNC/utils/utils.hpp
+++ b/include/INNC/utils/utils.hpp
@@ -19,10 +19,9 @@ std::string sformat(const std::string &format, Args... args) {
     throw std::runtime_error("Error during formatting.");
   }
   auto size = static_cast<size_t>(size_s);
-  char *buf = new char[size];
-  std::snprintf(buf, size, format.c_str(), args...);
-  auto ret = std::string(buf, buf + size - 1);
-  delete[] buf;
+  std::string ret(size, '\0');
+  std::snprintf(ret.data(), size, format.c_str(), args...);
+  ret.pop_back();
   return ret;
 }
 
-- 
2.43.0

