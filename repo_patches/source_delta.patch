From 497a85d770d654179d7909923b76b548ef991b11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:40:35 +0000
Subject: [PATCH 01/17] fix: randn of f64 allocated an f32 buffer and
 overflowed it

---
 src/INNC/tensorImpl.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/INNC/tensorImpl.cpp b/src/INNC/tensorImpl.cpp
index 9ca8418..f93959d 100644
--- a/src/INNC/tensorImpl.cpp
+++ b/src/INNC/tensorImpl.cpp
@@ -790,7 +790,7 @@ std::shared_ptr<TensorImpl> TensorImpl::randn(const SizeVec &sizes,
     return ret;
   } else {
     std::normal_distribution<double> gen_norm{};
-    auto ret = create(INNC::f32, StridedLayout{sizes});
+    auto ret = create(INNC::f64, StridedLayout{sizes});
     auto dptr = reinterpret_cast<double *>(ret->data_->get_blob());
     for (size_t i = 0; i < ret->numel(); ++i) {
       *(dptr + i) = gen_norm(rng);
-- 
2.43.0


From d358017b36c8eaeb076f52cae8986044969203da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:40:35 +0000
Subject: [PATCH 02/17] fix: mean() gradient ignored the incoming gradient

---
 src/INNC/function.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/INNC/function.cpp b/src/INNC/function.cpp
index f1b2c36..6b60b0f 100644
--- a/src/INNC/function.cpp
+++ b/src/INNC/function.cpp
@@ -98,7 +98,8 @@ void MeanBack::step_back() {
                       TensorImpl::full(input_tfs[0]->view->sizes,
                                        1. / ((double)input_tfs[0]->numel()),
                                        input_tfs[0]->dtype)
-                          .get());
+                          .get(),
+                      &get_out_grad());
 }
 
 void NoBack::step_back() { try_accumulate_grad(input_tfs[0].get(), nullptr); }
-- 
2.43.0


From 60608153d465d89ff56f3cc3707f496e020c01f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:40:35 +0000
Subject: [PATCH 03/17] fix: division gradient dereferenced the missing grad of
 constant operands

---
 src/INNC/function.cpp | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/INNC/function.cpp b/src/INNC/function.cpp
index 6b60b0f..8250d83 100644
--- a/src/INNC/function.cpp
+++ b/src/INNC/function.cpp
@@ -78,13 +78,17 @@ void tensor_div_back_numerator_f(TensorImpl &dst, TensorImpl &tf1,
                                                                     tf2);
 }
 void DivBack::step_back() {
-  try_accumulate_update(input_tfs[0].get());
-  tensor_div_back_numerator_f(*input_tfs[0]->grad, get_out_grad(),
-                              *input_tfs[1]);
-  try_accumulate_update(input_tfs[1].get());
-  native::tensor_div_back_denominator_helper::dispatch(input_tfs[1]->type(),
-                                                       this_tf->type())(
-      input_tfs[1]->grad.get(), &get_out_grad(), this_tf, input_tfs[1].get());
+  if (input_tfs[0]->requires_grad) {
+    try_accumulate_update(input_tfs[0].get());
+    tensor_div_back_numerator_f(*input_tfs[0]->grad, get_out_grad(),
+                                *input_tfs[1]);
+  }
+  if (input_tfs[1]->requires_grad) {
+    try_accumulate_update(input_tfs[1].get());
+    native::tensor_div_back_denominator_helper::dispatch(input_tfs[1]->type(),
+                                                         this_tf->type())(
+        input_tfs[1]->grad.get(), &get_out_grad(), this_tf, input_tfs[1].get());
+  }
 }
 
 void SumBack::step_back() {
-- 
2.43.0


From 7ff0fee3c52ae83be47bd72040a392eb3142bd45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:40:35 +0000
Subject: [PATCH 04/17] fix: division gradient indexed a broadcast denominator
 out of its range

---
 include/INNC/ops.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/INNC/ops.hpp b/include/INNC/ops.hpp
index 7412be1..2f94888 100644
--- a/include/INNC/ops.hpp
+++ b/include/INNC/ops.hpp
@@ -380,7 +380,7 @@ void tensor_div_back_denominator(TensorImpl *dst, const TensorImpl *outgrad,
   auto quot_ptr = reinterpret_cast<Quot *>(quot->data_->get_blob());
   auto den_ptr = reinterpret_cast<Den *>(den->data_->get_blob());
   for_each_sizevec(quot->size(), [=](const SizeVec &sv) {
-    *(dst_ptr + dst->cnt_from_index(sv)) -=
+    *(dst_ptr + dst->cnt_from_aug_index(sv)) -=
         *(outgrad_ptr + outgrad->cnt_from_aug_index(sv)) *
         *(quot_ptr + quot->cnt_from_aug_index(sv)) /
         *(den_ptr + den->cnt_from_aug_index(sv));
-- 
2.43.0


From 036073ed8e6975fed06462113ce7ffbd52d239f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:40:35 +0000
Subject: [PATCH 05/17] fix: abs() of a view wrote past its result with the
 operand's strides

---
 src/INNC/tensorImpl.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/INNC/tensorImpl.cpp b/src/INNC/tensorImpl.cpp
index f93959d..db66bf6 100644
--- a/src/INNC/tensorImpl.cpp
+++ b/src/INNC/tensorImpl.cpp
@@ -392,11 +392,11 @@ std::shared_ptr<TensorImpl> TensorImpl::mean() {
 }
 
 std::shared_ptr<TensorImpl> TensorImpl::abs() {
-  auto ret = create(dtype, view);
+  auto ret = create(dtype, view->sizes);
   if (!requires_grad) {
     native::tensor_abs_helper::dispatch(dtype, dtype)(ret.get(), this, nullptr);
   } else {
-    auto grad = create(dtype, view);
+    auto grad = create(dtype, view->sizes);
     native::tensor_abs_helper::dispatch(dtype, dtype)(ret.get(), this,
                                                       grad.get());
     ret->requires_grad = true;
-- 
2.43.0


From 1578bd3e6fce9683a237b1afe2b672aadd4ff557 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:40:35 +0000
Subject: [PATCH 06/17] fix: grad buffer of a view leaf was too small for the
 view's layout

---
 src/INNC/function.cpp   | 4 +++-
 src/INNC/tensorImpl.cpp | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/INNC/function.cpp b/src/INNC/function.cpp
index 8250d83..0cebeac 100644
--- a/src/INNC/function.cpp
+++ b/src/INNC/function.cpp
@@ -44,7 +44,9 @@ void Backward::try_accumulate_update(TensorImpl *tf_prev, bool zero_init) {
   if (tf_prev->grad_fn.get() != nullptr)
     ++tf_prev->grad_fn->accumulated_n_outway;
   if (tf_prev->grad.get() == nullptr) {
-    tf_prev->grad = TensorImpl::create(tf_prev->dtype, tf_prev->view);
+    tf_prev->grad = TensorImpl::create(
+        tf_prev->dtype, tf_prev->view,
+        std::make_shared<UntypedStorage>(tf_prev->data_->get_size()));
     if (zero_init)
       tf_prev->grad->data_->zero_();
   } else if (!tf_prev->grad->data_->is_alloc()) {
diff --git a/src/INNC/tensorImpl.cpp b/src/INNC/tensorImpl.cpp
index db66bf6..e2e6574 100644
--- a/src/INNC/tensorImpl.cpp
+++ b/src/INNC/tensorImpl.cpp
@@ -443,7 +443,9 @@ void TensorImpl::zero_grad() const noexcept {
 void share_grad_storage(TensorImpl &to, TensorImpl &from,
                         const std::shared_ptr<Layout> &view) {
   if (from.grad == nullptr) {
-    from.grad = TensorImpl::create(from.dtype, from.view, false);
+    from.grad = TensorImpl::create(
+        from.dtype, from.view,
+        std::make_shared<UntypedStorage>(from.data_->get_size(), false));
   }
   to.grad = TensorImpl::create(to.dtype, view, from.grad->data_);
 }
-- 
2.43.0


From 975862f67573563dfe47a51f48035fa4ce64c0d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:40:35 +0000
Subject: [PATCH 07/17] fix: max/min started from the first stored element
 instead of the view's

---
 include/INNC/ops.hpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/INNC/ops.hpp b/include/INNC/ops.hpp
index 2f94888..7993e06 100644
--- a/include/INNC/ops.hpp
+++ b/include/INNC/ops.hpp
@@ -245,8 +245,11 @@ void tensor_max(TensorImpl *to, const TensorImpl *from,
                 to_string(from->dlayout).c_str()));
   T *to_ptr = reinterpret_cast<T *>(to->data_->get_blob());
   T *from_ptr = reinterpret_cast<T *>(from->data_->get_blob());
-  *to_ptr = *from_ptr;
+  if (from->view->numel() == 0)
+    return;
   SizeVec max_sv;
+  max_sv.resize(from->dim(), 0);
+  *to_ptr = *(from_ptr + from->cnt_from_index(max_sv));
   for_each_sizevec(from->view->sizes, [=, &max_sv](const SizeVec &sv) {
     T t = *(from_ptr + from->cnt_from_index(sv));
     if (__LIKELY(*to_ptr >= t))
@@ -272,8 +275,11 @@ void tensor_min(TensorImpl *to, const TensorImpl *from,
                 to_string(from->dlayout).c_str()));
   T *to_ptr = reinterpret_cast<T *>(to->data_->get_blob());
   T *from_ptr = reinterpret_cast<T *>(from->data_->get_blob());
-  *to_ptr = *from_ptr;
+  if (from->view->numel() == 0)
+    return;
   SizeVec min_sv;
+  min_sv.resize(from->dim(), 0);
+  *to_ptr = *(from_ptr + from->cnt_from_index(min_sv));
   for_each_sizevec(from->view->sizes, [=, &min_sv](const SizeVec &sv) {
     T t = *(from_ptr + from->cnt_from_index(sv));
     if (__LIKELY(*to_ptr <= t))
-- 
2.43.0


From cf62d98184acec3112a73af6d83e2a1fe384c89e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:40:35 +0000
Subject: [PATCH 08/17] fix: all() read every dtype as one-byte bool

---
 src/INNC/tensorImpl.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/INNC/tensorImpl.cpp b/src/INNC/tensorImpl.cpp
index e2e6574..8f3dae6 100644
--- a/src/INNC/tensorImpl.cpp
+++ b/src/INNC/tensorImpl.cpp
@@ -745,6 +745,10 @@ std::shared_ptr<TensorImpl> TensorImpl::detach() {
 }
 
 bool TensorImpl::all() const {
+  if (dtype != types::i8)
+    return apply_cmp_op<native::tensor_ne_helper>(*this,
+                                                  *create(std::int8_t(0)))
+        ->all();
   if (dlayout == layouts::strided) {
     for (auto r : view->sizes) {
       if (r == 0)
@@ -762,13 +766,13 @@ bool TensorImpl::all() const {
           sv[ptr] = 0;
           ++sv[--ptr];
         }
-        if (!*reinterpret_cast<bool *>(
+        if (!*reinterpret_cast<std::int8_t *>(
                 (data_->get_blob() + cnt_from_index(sv))))
           return false;
         ++sv[last_idx];
       };
     } else {
-      return *reinterpret_cast<bool *>(
+      return *reinterpret_cast<std::int8_t *>(
           (data_->get_blob() + cnt_from_index(SizeVec{})));
     }
   } else {
-- 
2.43.0


From 605f53d543581f05f8f7f0b1a429f108fa7b481f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:40:35 +0000
Subject: [PATCH 09/17] fix: stride() threw for every tensor

---
 src/INNC/tensorImpl.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/INNC/tensorImpl.cpp b/src/INNC/tensorImpl.cpp
index 8f3dae6..eb1cdf7 100644
--- a/src/INNC/tensorImpl.cpp
+++ b/src/INNC/tensorImpl.cpp
@@ -56,7 +56,7 @@ size_t TensorImpl::size(int d) const {
 }
 
 SignedVec TensorImpl::stride() const {
-  if (typeid(view) == typeid(std::shared_ptr<StridedLayout>)) {
+  if (dlayout == layouts::strided) {
     return dynamic_cast<StridedLayout *>(view.get())->strides;
   } else {
     throw std::runtime_error("Scalar do not have stride");
-- 
2.43.0


From e6dfacf9ee15e678232b827f5702f9d376502844 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:40:35 +0000
Subject: [PATCH 10/17] fix: reshape of a one-element tensor that requires grad
 fell through

---
 src/INNC/tensorImpl.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/INNC/tensorImpl.cpp b/src/INNC/tensorImpl.cpp
index eb1cdf7..e2afd4f 100644
--- a/src/INNC/tensorImpl.cpp
+++ b/src/INNC/tensorImpl.cpp
@@ -657,6 +657,7 @@ TensorImpl::reshape(const std::shared_ptr<TensorImpl> &input,
     tf->requires_grad = true;
     tf->grad_fn.reset(new NoBack(tf.get(), {input}));
     share_grad_storage(*tf, *input);
+    return tf;
   }
 
   bool isometry = true;
-- 
2.43.0


From 03be33e1bda941086df0c1a8c1e0187bc038ed09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:40:35 +0000
Subject: [PATCH 11/17] fix: reshape accepted negative sizes and divided by
 zero inferring -1

---
 src/INNC/tensorImpl.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/INNC/tensorImpl.cpp b/src/INNC/tensorImpl.cpp
index e2afd4f..13a5588 100644
--- a/src/INNC/tensorImpl.cpp
+++ b/src/INNC/tensorImpl.cpp
@@ -606,6 +606,7 @@ SizeVec regularize_size(const SignedVec &sizes, size_t numel = 0) {
   size_t minus_one_exist = false;
   size_t minus_one_index;
   for (size_t i = 0; i < sizes_.size(); i++) {
+    run_expect(sizes_[i] >= -1, "Sizes other than -1 cannot be negative.");
     if (sizes_[i] == -1) {
       run_expect(!minus_one_exist,
                  "Cannot have more than two minus ones in size.");
@@ -618,7 +619,7 @@ SizeVec regularize_size(const SignedVec &sizes, size_t numel = 0) {
     for (size_t i = 0; i < sizes_.size(); i++)
       if (i != minus_one_index)
         s *= sizes_[i];
-    run_expect(numel % s == 0, "The input of sizes and numel is illegal.");
+    run_expect(s != 0 && numel % s == 0, "The input of sizes and numel is illegal.");
     sizes_[minus_one_index] = numel / s;
   }
   SizeVec sizes__;
-- 
2.43.0


From 32d3375a49f2aa8f0b9797733b55a29932d95cde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:40:35 +0000
Subject: [PATCH 12/17] fix: cat of no tensors read past the end of its input

---
 src/INNC/tensorImpl.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/INNC/tensorImpl.cpp b/src/INNC/tensorImpl.cpp
index 13a5588..5403d29 100644
--- a/src/INNC/tensorImpl.cpp
+++ b/src/INNC/tensorImpl.cpp
@@ -814,6 +814,7 @@ std::shared_ptr<TensorImpl> TensorImpl::randn_like(const TensorImpl &t) {
 std::shared_ptr<TensorImpl>
 TensorImpl::cat(const std::vector<std::shared_ptr<INNC::TensorImpl>> &input_ts,
                 const size_t dim) {
+  run_expect(!input_ts.empty(), "cat needs at least one tensor.");
   run_expect(dim >= 0 && dim < input_ts[0]->dim(),
              "you give out a illegal dim");
   for (size_t i = 1; i < input_ts.size(); i++) {
-- 
2.43.0


From 145d272e14f68ab0f4c4125160006d0e4744c1b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:40:35 +0000
Subject: [PATCH 13/17] fix: the broadcast compatibility check was a tautology

---
 src/INNC/utils/utils.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/INNC/utils/utils.cpp b/src/INNC/utils/utils.cpp
index dd3afb6..b74b507 100644
--- a/src/INNC/utils/utils.cpp
+++ b/src/INNC/utils/utils.cpp
@@ -28,7 +28,7 @@ SizeVec broadcast_range(const SizeVec *u, const SizeVec *v) {
     if (i <= dim_v) {
       auto su = (*u)[dim_u - i];
       auto sv = (*v)[dim_v - i];
-      run_expect(su != 1 || sv != 1 || su == sv, "Size ", u, " and Size ", v,
+      run_expect(su == sv || std::min(su, sv) == 1, "Size ", u, " and Size ", v,
                  " are not broadcastable.");
       ret[dim_u - i] = std::max(su, sv);
     } else {
-- 
2.43.0


From 99282e39d19cccd1717a9227ec8b95ac54eadb83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:40:35 +0000
Subject: [PATCH 14/17] fix: negation widened i8 and i16 tensors to i32

---
 src/INNC/tensorImpl.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/INNC/tensorImpl.cpp b/src/INNC/tensorImpl.cpp
index 5403d29..d35b5c9 100644
--- a/src/INNC/tensorImpl.cpp
+++ b/src/INNC/tensorImpl.cpp
@@ -145,7 +145,7 @@ std::shared_ptr<TensorImpl> TensorImpl::operator+() {
 }
 
 std::shared_ptr<TensorImpl> TensorImpl::operator-() {
-  return *create(char(0)) - *this;
+  return *create(std::int8_t(0)) - *this;
 }
 
 std::shared_ptr<TensorImpl> operator+(TensorImpl &l, TensorImpl &r) {
-- 
2.43.0


From ca315543c00684472eed7cdae9f051371d8e2f43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:40:35 +0000
Subject: [PATCH 15/17] fix: backward() from a view dropped the gradient of its
 base

---
 src/INNC/tensorImpl.cpp | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/INNC/tensorImpl.cpp b/src/INNC/tensorImpl.cpp
index d35b5c9..471b8d2 100644
--- a/src/INNC/tensorImpl.cpp
+++ b/src/INNC/tensorImpl.cpp
@@ -332,6 +332,8 @@ void refresh_n_outway(TensorImpl *tf) {
   }
 }
 
+void share_grad_storage(TensorImpl &to, TensorImpl &from);
+
 void TensorImpl::backward() {
   run_expect(requires_grad,
              "Cannot backward from a tensor that does not require grad.");
@@ -342,7 +344,18 @@ void TensorImpl::backward() {
   refresh_n_outway(this);
   std::queue<TensorImpl *> q; // TODO 3 multiprocessing
   q.push(this);
-  grad = ones_like(*this);
+  if (dynamic_cast<NoBack *>(grad_fn.get()) != nullptr) {
+    // The gradient of a view is stored in its base.
+    if (grad == nullptr)
+      share_grad_storage(*this, *grad_fn->input_tfs[0]);
+    if (!grad->data_->is_alloc()) {
+      grad->data_->alloc();
+      grad->data_->zero_();
+    }
+    *grad += *ones_like(*this);
+  } else {
+    grad = ones_like(*this);
+  }
   grad_fn->back_version = ++Backward::global_back_version;
   while (!q.empty()) {
     auto t = q.front();
-- 
2.43.0


From 684663965d9e8f8c96908a92fd899daa221e7e3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:40:35 +0000
Subject: [PATCH 16/17] fix: nested empty initializers read an uninitialised
 dtype

---
 include/INNC/tensor.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/INNC/tensor.hpp b/include/INNC/tensor.hpp
index 68f4ab4..bb67a70 100644
--- a/include/INNC/tensor.hpp
+++ b/include/INNC/tensor.hpp
@@ -155,6 +155,8 @@ public:
     } else
       return;
     auto first_sub = args.begin();
+    if (first_sub->shape.empty()) [[unlikely]]
+      throw std::invalid_argument("Subtensors cannot be empty");
     if (!std::all_of(args.begin(), args.end(), [first_sub](const auto &lhs) {
           return is_same_spec(lhs, *first_sub);
         })) [[unlikely]]
-- 
2.43.0


From 06bd2db29d3da2a559f307bf8694671523b8ef9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:11:55 +0000
Subject: [PATCH 17/17] fix: a zero slice step on an empty dimension was
 accepted

---
 src/INNC/tensorImpl.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/INNC/tensorImpl.cpp b/src/INNC/tensorImpl.cpp
index 471b8d2..1a122cb 100644
--- a/src/INNC/tensorImpl.cpp
+++ b/src/INNC/tensorImpl.cpp
@@ -496,11 +496,6 @@ std::shared_ptr<TensorImpl> TensorImpl::operator[](const std::string &slice) {
                    " with size ", sizes[dim]);
         _offset += strides[dim] * idx;
       } else { // like a[-2:]
-        if (sizes[dim] == 0) {
-          _sizes.push_back(0);
-          _strides.push_back(0);
-          continue;
-        }
         for (int i = split_slice.size(); i < 3; ++i)
           split_slice.push_back("");
         long long step, beg, end;
@@ -509,6 +504,11 @@ std::shared_ptr<TensorImpl> TensorImpl::operator[](const std::string &slice) {
           run_expect(step != 0, "slice step cannot be zero");
         } else
           step = 1;
+        if (sizes[dim] == 0) {
+          _sizes.push_back(0);
+          _strides.push_back(0);
+          continue;
+        }
         if (split_slice[0].size() != 0) {
           beg = stoll(split_slice[0]);
           if (beg < 0)
-- 
2.43.0

