From bd510c1e067e0763cf93c4240266c53ab8900958 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:09 +0000
Subject: [PATCH 01/17] fix: t2mat must not modify the caller's r_axis, and
 must accept tuples

With an int c_axis the column axis was appended to the list the caller
passed as r_axis; tuple axes (documented for ops.mul) raised TypeError.
---
 tensorD/base/ops.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tensorD/base/ops.py b/tensorD/base/ops.py
index 1e22183..fcb9f83 100644
--- a/tensorD/base/ops.py
+++ b/tensorD/base/ops.py
@@ -151,7 +151,7 @@ def t2mat(tensor, r_axis, c_axis):
             indies = [r_axis]
             row_size = tensor.get_shape()[r_axis].value
         else:
-            indies = r_axis
+            indies = list(r_axis)
             row_size = np.prod([tensor.get_shape()[i].value for i in r_axis])
         if c_axis == -1:
             c_axis = [_ for _ in range(tensor.get_shape().ndims) if _ not in indies]
@@ -159,7 +159,7 @@ def t2mat(tensor, r_axis, c_axis):
             indies.append(c_axis)
             col_size = tensor.get_shape()[c_axis].value
         else:
-            indies = indies + c_axis
+            indies = indies + list(c_axis)
             col_size = np.prod([tensor.get_shape()[i].value for i in c_axis])
         return tf.reshape(tf.transpose(tensor, indies), (int(row_size), int(col_size)))
 
-- 
2.43.0


From c1b032ecdd11e3e0ddcd86388e0f0d69191c3e42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:09 +0000
Subject: [PATCH 02/17] fix: DTensor.unfold returned the first mode's unfolding
 for every mode

---
 tensorD/base/type.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/tensorD/base/type.py b/tensorD/base/type.py
index 155403d..c7f57c0 100644
--- a/tensorD/base/type.py
+++ b/tensorD/base/type.py
@@ -48,8 +48,7 @@ class DTensor(object):
         return DTensor(ops.mul(self.T, tensor.T, a_axis, b_axis))
 
     def unfold(self, mode=0):
-        if self.unfold_T is None:
-            self.unfold_T = ops.unfold(self.T, mode)
+        self.unfold_T = ops.unfold(self.T, mode)
         return DTensor(self.unfold_T)
 
     def t2mat(self, r_axis, c_axis):
-- 
2.43.0


From 38775848e4ab4f90312260a4b72bb55cf5ff99fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:09 +0000
Subject: [PATCH 03/17] fix: KTensor weights take the dtype of the factors

ndarray factors become float32, so float64 ndarray weights (the documented
example) failed in extract, as did float64 tensors with default weights.
---
 tensorD/base/type.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tensorD/base/type.py b/tensorD/base/type.py
index c7f57c0..0fa3dca 100644
--- a/tensorD/base/type.py
+++ b/tensorD/base/type.py
@@ -139,10 +139,10 @@ class KTensor(object):
         # Note that the shape of lambdas must be (x, 1).
         # The dimension of "1" should not be ignored!!
         if lambdas is None:
-            self.lambdas = tf.ones((self.U[0].get_shape()[1].value, 1), dtype=tf.float32)
+            self.lambdas = tf.ones((self.U[0].get_shape()[1].value, 1), dtype=self.U[0].dtype.base_dtype)
         else:
             if isinstance(lambdas, np.ndarray):
-                self.lambdas = tf.constant(lambdas)
+                self.lambdas = tf.constant(lambdas, dtype=self.U[0].dtype.base_dtype)
             else:
                 self.lambdas = lambdas
             if self.lambdas.get_shape().ndims == 1:
-- 
2.43.0


From 79135587e86529ab23a9b33629d2f5fa7dd84381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:09 +0000
Subject: [PATCH 04/17] fix: predict raised ValueError on every trained model

The truth value of the reconstructed array was tested instead of whether
there is one; HOSVD and HOOI had no check at all.
---
 tensorD/factorization/cp.py      | 2 +-
 tensorD/factorization/ncp.py     | 2 +-
 tensorD/factorization/ntucker.py | 2 +-
 tensorD/factorization/tucker.py  | 4 ++++
 4 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/tensorD/factorization/cp.py b/tensorD/factorization/cp.py
index 6d58305..54b2500 100644
--- a/tensorD/factorization/cp.py
+++ b/tensorD/factorization/cp.py
@@ -44,7 +44,7 @@ class CP_ALS(BaseFact):
         self._rel_res_op = None
 
     def predict(self, *key):
-        if not self._full_tensor:
+        if self._full_tensor is None:
             raise TensorErr('improper stage to call predict before the model is trained')
         return self._full_tensor.item(key)
 
diff --git a/tensorD/factorization/ncp.py b/tensorD/factorization/ncp.py
index f67095e..70cc8cc 100644
--- a/tensorD/factorization/ncp.py
+++ b/tensorD/factorization/ncp.py
@@ -41,7 +41,7 @@ class NCP_BCU(BaseFact):
         self._is_train_finish = False
 
     def predict(self, *key):
-        if not self._full_tensor:
+        if self._full_tensor is None:
             raise TensorErr('improper stage to call predict before the model is trained')
         return self._full_tensor.item(key)
 
diff --git a/tensorD/factorization/ntucker.py b/tensorD/factorization/ntucker.py
index 00d3548..09ec454 100644
--- a/tensorD/factorization/ntucker.py
+++ b/tensorD/factorization/ntucker.py
@@ -42,7 +42,7 @@ class NTUCKER_BCU(BaseFact):
         self._is_train_finish = False
 
     def predict(self, *key):
-        if not self._full_tensor:
+        if self._full_tensor is None:
             raise TensorErr('improper stage to call predict before the model is trained')
         return self._full_tensor.item(key)
 
diff --git a/tensorD/factorization/tucker.py b/tensorD/factorization/tucker.py
index 3d2a49a..7a14333 100644
--- a/tensorD/factorization/tucker.py
+++ b/tensorD/factorization/tucker.py
@@ -85,6 +85,8 @@ class HOSVD(BaseFact):
         self._is_train_finish = True
 
     def predict(self, *key):
+        if self._full_tensor is None:
+            raise TensorErr('improper stage to call predict before the model is trained')
         return self._full_tensor.item(key)
 
     @property
@@ -190,6 +192,8 @@ class HOOI(BaseFact):
         return self._full_tensor
 
     def predict(self, *key):
+        if self._full_tensor is None:
+            raise TensorErr('improper stage to call predict before the model is trained')
         return self._full_tensor.item(key)
 
     @property
-- 
2.43.0


From 70cd1a96fd077f46972861e8198cc80ab4cd4437 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:09 +0000
Subject: [PATCH 05/17] fix: full belonged to an earlier step than factors
 after an early stop

The reconstruction was only fetched in logging steps, so when training
stopped in another step, full and predict did not match the factors.
---
 tensorD/factorization/cp.py      | 4 ++--
 tensorD/factorization/ncp.py     | 4 ++--
 tensorD/factorization/ntucker.py | 4 ++--
 tensorD/factorization/tucker.py  | 4 ++--
 4 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/tensorD/factorization/cp.py b/tensorD/factorization/cp.py
index 54b2500..84b76f3 100644
--- a/tensorD/factorization/cp.py
+++ b/tensorD/factorization/cp.py
@@ -155,8 +155,8 @@ class CP_ALS(BaseFact):
                 sum_writer.add_summary(sum_msg, step)
                 print('step=%d, RMSE=%.10f, relerr=%.10f' % (step, loss_v, rel_res))
             else:
-                self._factors, self._lambdas, loss_v, obj, rel_res = sess.run([factor_update_op, lambda_op, loss_op, obj_op, rel_res_op],
-                                                                feed_dict=self._feed_dict)
+                self._factors, self._lambdas, self._full_tensor, loss_v, obj, rel_res = sess.run(
+                    [factor_update_op, lambda_op, full_op, loss_op, obj_op, rel_res_op], feed_dict=self._feed_dict)
             hist.append([loss_v, rel_res])
             if step == 1:
                 obj0 = obj + 1
diff --git a/tensorD/factorization/ncp.py b/tensorD/factorization/ncp.py
index 70cc8cc..5140844 100644
--- a/tensorD/factorization/ncp.py
+++ b/tensorD/factorization/ncp.py
@@ -207,8 +207,8 @@ class NCP_BCU(BaseFact):
                 sum_writer.add_summary(sum_msg, step)
                 print('step=%d, RMSE=%.10f, relerr=%.10f' % (step, loss_v, rel_res))
             else:
-                self._factors, loss_v, rel_res, obj, _ = sess.run(
-                    [factor_update_op, loss_op, rel_res_op, obj_op, train_op], feed_dict=self._feed_dict)
+                self._factors, self._full_tensor, loss_v, rel_res, obj, _ = sess.run(
+                    [factor_update_op, full_op, loss_op, rel_res_op, obj_op, train_op], feed_dict=self._feed_dict)
 
             if step == 1:
                 obj0 = obj + 1
diff --git a/tensorD/factorization/ntucker.py b/tensorD/factorization/ntucker.py
index 09ec454..f66aac1 100644
--- a/tensorD/factorization/ntucker.py
+++ b/tensorD/factorization/ntucker.py
@@ -242,8 +242,8 @@ class NTUCKER_BCU(BaseFact):
                 sum_writer.add_summary(sum_msg, step)
                 print('step=%d, RMSE=%.10f, relerr=%.10f' % (step, loss_v, rel_res))
             else:
-                self._factors, loss_v, rel_res, obj, _ = sess.run(
-                    [factor_update_op, loss_op, rel_res_op, obj_op, train_op], feed_dict=self._feed_dict)
+                self._factors, self._full_tensor, loss_v, rel_res, obj, _ = sess.run(
+                    [factor_update_op, full_op, loss_op, rel_res_op, obj_op, train_op], feed_dict=self._feed_dict)
             hist.append([loss_v, rel_res])
             if step == 1:
                 obj0 = obj + 1
diff --git a/tensorD/factorization/tucker.py b/tensorD/factorization/tucker.py
index 7a14333..37d40cd 100644
--- a/tensorD/factorization/tucker.py
+++ b/tensorD/factorization/tucker.py
@@ -238,8 +238,8 @@ class HOOI(BaseFact):
                 sum_writer.add_summary(sum_msg, step)
                 print('step=%d, RMSE=%.10f, relerr=%.10f' % (step, loss_v, rel_res))
             else:
-                self._factors, self._core, loss_v, obj, rel_res = sess.run([factor_update_op, core_op, loss_op, obj_op, rel_res_op],
-                                                             feed_dict=self._feed_dict)
+                self._full_tensor, self._factors, self._core, loss_v, obj, rel_res = sess.run(
+                    [full_op, factor_update_op, core_op, loss_op, obj_op, rel_res_op], feed_dict=self._feed_dict)
             hist.append([loss_v, rel_res])
             if step == 1:
                 obj0 = obj + 1
-- 
2.43.0


From f1ea080e3a14c717cd5b35287603919bcf487b32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:09 +0000
Subject: [PATCH 06/17] fix: HOOI reported train_finish while a second training
 was running or had failed

---
 tensorD/factorization/tucker.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tensorD/factorization/tucker.py b/tensorD/factorization/tucker.py
index 37d40cd..0d0e62b 100644
--- a/tensorD/factorization/tucker.py
+++ b/tensorD/factorization/tucker.py
@@ -209,6 +209,7 @@ class HOOI(BaseFact):
         return self._is_train_finish
 
     def train(self, steps):
+        self._is_train_finish = False
         sess = self._env.sess
         args = self._args
 
-- 
2.43.0


From e5172526d38338e7b7def295775fea4f6ca9ce7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:46 +0000
Subject: [PATCH 07/17] fix: training a model needed the data of every other
 model in the graph

merge_all collects the summaries of all models built in the default graph,
so training a second one failed with an unfed placeholder.
---
 tensorD/factorization/cp.py      |  7 ++++---
 tensorD/factorization/ncp.py     |  7 ++++---
 tensorD/factorization/ntucker.py |  7 ++++---
 tensorD/factorization/pitf.py    |  6 +++---
 tensorD/factorization/tucker.py  | 12 +++++++-----
 5 files changed, 22 insertions(+), 17 deletions(-)

diff --git a/tensorD/factorization/cp.py b/tensorD/factorization/cp.py
index 84b76f3..b623be9 100644
--- a/tensorD/factorization/cp.py
+++ b/tensorD/factorization/cp.py
@@ -106,8 +106,8 @@ class CP_ALS(BaseFact):
         with tf.name_scope('objective-value') as scope:
             obj_op = 0.5 * tf.square(tf.norm(full_op - input_data))
 
-        tf.summary.scalar('loss', loss_op)
-        tf.summary.scalar('relative_residual', rel_res_op)
+        sum_op = tf.summary.merge([tf.summary.scalar('loss', loss_op),
+                                   tf.summary.scalar('relative_residual', rel_res_op)])
 
         init_op = tf.global_variables_initializer()
 
@@ -117,6 +117,7 @@ class CP_ALS(BaseFact):
         self._full_op = full_op
         self._factor_update_op = assign_op
         self._loss_op = loss_op
+        self._sum_op = sum_op
         self._obj_op = obj_op
         self._rel_res_op = rel_res_op
 
@@ -137,7 +138,7 @@ class CP_ALS(BaseFact):
         rel_res_op = self._rel_res_op
         hist = []
 
-        sum_op = tf.summary.merge_all()
+        sum_op = self._sum_op
         sum_writer = tf.summary.FileWriter(self._env.summary_path, sess.graph)
 
         sess.run(init_op, feed_dict=self._feed_dict)
diff --git a/tensorD/factorization/ncp.py b/tensorD/factorization/ncp.py
index 5140844..02053e3 100644
--- a/tensorD/factorization/ncp.py
+++ b/tensorD/factorization/ncp.py
@@ -152,8 +152,8 @@ class NCP_BCU(BaseFact):
             with tf.control_dependencies([Am_update_op1[order - 1]]):
                 t0_update_op1 = t0.assign(t)
 
-        tf.summary.scalar('loss', loss_op)
-        tf.summary.scalar('relative_residual', rel_res_op)
+        sum_op = tf.summary.merge([tf.summary.scalar('loss', loss_op),
+                                   tf.summary.scalar('relative_residual', rel_res_op)])
 
         init_op = tf.global_variables_initializer()
 
@@ -166,6 +166,7 @@ class NCP_BCU(BaseFact):
         self._factor_update_op = A_update_op
         self._full_op = full_op
         self._loss_op = loss_op
+        self._sum_op = sum_op
         self._obj_op = obj_op
         self._rel_res_op = rel_res_op
 
@@ -187,7 +188,7 @@ class NCP_BCU(BaseFact):
         rel_res_op = self._rel_res_op
         hist = []
 
-        sum_op = tf.summary.merge_all()
+        sum_op = self._sum_op
         sum_writer = tf.summary.FileWriter(self._env.summary_path, sess.graph)
 
         sess.run(init_op, feed_dict=self._feed_dict)
diff --git a/tensorD/factorization/ntucker.py b/tensorD/factorization/ntucker.py
index f66aac1..51e3778 100644
--- a/tensorD/factorization/ntucker.py
+++ b/tensorD/factorization/ntucker.py
@@ -181,8 +181,8 @@ class NTUCKER_BCU(BaseFact):
         with tf.control_dependencies([Am_update_op1[order - 1]]):
             t0_update_op1 = t0.assign(t)
 
-        tf.summary.scalar('loss', loss_op)
-        tf.summary.scalar('relative_residual', rel_res_op)
+        sum_op = tf.summary.merge([tf.summary.scalar('loss', loss_op),
+                                   tf.summary.scalar('relative_residual', rel_res_op)])
 
         init_op = tf.global_variables_initializer()
 
@@ -198,6 +198,7 @@ class NTUCKER_BCU(BaseFact):
         self._train_op2 = tf.group(*Am_update_op2, gm_update_op2)
         self._full_op = full_op
         self._loss_op = loss_op
+        self._sum_op = sum_op
         self._obj_op = obj_op
         self._rel_res_op = rel_res_op
 
@@ -221,7 +222,7 @@ class NTUCKER_BCU(BaseFact):
         rel_res_op = self._rel_res_op
         hist = []
 
-        sum_op = tf.summary.merge_all()
+        sum_op = self._sum_op
         sum_writer = tf.summary.FileWriter(self._env.summary_path, sess.graph)
 
         sess.run(init_op, feed_dict=self._feed_dict)
diff --git a/tensorD/factorization/pitf.py b/tensorD/factorization/pitf.py
index 1273ce8..bb80ba3 100644
--- a/tensorD/factorization/pitf.py
+++ b/tensorD/factorization/pitf.py
@@ -92,14 +92,14 @@ class PITF(BaseFact):
             y_new = y + delt*e
             sample_vector_update_op = y.assign(y_new)
 
-        tf.summary.scalar('error rate', erate_op)
-        tf.summary.scalar('loss', loss_op)
+        sum_op = tf.summary.merge([tf.summary.scalar('error rate', erate_op), tf.summary.scalar('loss', loss_op)])
 
         init_op = tf.global_variables_initializer()
 
         self._args = args
         self._erate_op = erate_op
         self._loss_op = loss_op
+        self._sum_op = sum_op
         self._sample_vector_update_op = sample_vector_update_op
         self._init_op = init_op
         self._e = e
@@ -123,7 +123,7 @@ class PITF(BaseFact):
         e1 = self._e1
         e2 = self._e2
 
-        sum_op = tf.summary.merge_all()
+        sum_op = self._sum_op
         sum_writer = tf.summary.FileWriter(self._env.summary_path, sess.graph)
         sess.run(init_op)
         print('PITF model initial finish')
diff --git a/tensorD/factorization/tucker.py b/tensorD/factorization/tucker.py
index 0d0e62b..550d225 100644
--- a/tensorD/factorization/tucker.py
+++ b/tensorD/factorization/tucker.py
@@ -44,7 +44,7 @@ class HOSVD(BaseFact):
         with tf.name_scope('loss') as scope:
             loss_op = rmse_ignore_zero(input_data, full_op)
 
-        tf.summary.scalar('loss', loss_op)
+        sum_op = tf.summary.scalar('loss', loss_op)
 
         self._args = args
         self._init_op = init_op
@@ -52,6 +52,7 @@ class HOSVD(BaseFact):
         self._factor_update_op = A
         self._core_op = g
         self._loss_op = loss_op
+        self._sum_op = sum_op
 
     def train(self, steps=None):
         """
@@ -67,7 +68,7 @@ class HOSVD(BaseFact):
         self._is_train_finish = False
         sess = self._env.sess
 
-        sum_op = tf.summary.merge_all()
+        sum_op = self._sum_op
         sum_writer = tf.summary.FileWriter(self._env.summary_path, sess.graph)
 
         sess.run(self._init_op, feed_dict=self._feed_dict)
@@ -175,8 +176,8 @@ class HOOI(BaseFact):
             obj_op = 0.5 * tf.square(tf.norm(full_op - input_data))
 
 
-        tf.summary.scalar('loss', loss_op)
-        tf.summary.scalar('relative_residual', rel_res_op)
+        sum_op = tf.summary.merge([tf.summary.scalar('loss', loss_op),
+                                   tf.summary.scalar('relative_residual', rel_res_op)])
 
         self._args = args
         self._init_op = init_op
@@ -184,6 +185,7 @@ class HOOI(BaseFact):
         self._factor_update_op = assign_op
         self._core_op = g
         self._loss_op = loss_op
+        self._sum_op = sum_op
         self._obj_op = obj_op
         self._rel_res_op = rel_res_op
 
@@ -222,7 +224,7 @@ class HOOI(BaseFact):
         rel_res_op = self._rel_res_op
         hist = []
 
-        sum_op = tf.summary.merge_all()
+        sum_op = self._sum_op
         sum_writer = tf.summary.FileWriter(self._env.summary_path, sess.graph)
 
         sess.run(init_op, feed_dict=self._feed_dict)
-- 
2.43.0


From cb8902613a46fc070b49dd27c8029fc4294b6014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:46 +0000
Subject: [PATCH 08/17] fix: pitf_ops.shrink multiplied by V where the SVD
 needs its transpose

tf.svd returns V, unlike numpy.linalg.svd; the result was neither the
shrinkage of the matrix nor what pitf_ops_numpy computes.
---
 tensorD/base/pitf_ops.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tensorD/base/pitf_ops.py b/tensorD/base/pitf_ops.py
index 6d3e7fa..8711b5e 100644
--- a/tensorD/base/pitf_ops.py
+++ b/tensorD/base/pitf_ops.py
@@ -650,14 +650,14 @@ def shrink(mat, tao, mode='normal'):
     # print('shrink s2d done.')
     if mode == 'normal':
         print('shrink normal')
-        return tf.matmul(tf.matmul(u, sm), v)
+        return tf.matmul(tf.matmul(u, sm), v, transpose_b=True)
 
     if mode == 'complicated':
         vecr1 = tf.ones((shape[0], 1))
         vecr2 = tf.ones((shape[1], 1))
         delta_num = tf.div(tf.matmul(tf.matmul(tf.transpose(vecr1), mat), vecr2), tf.sqrt(tf.cast(shape[0]*shape[1],
                                                                                       dtype=mat.dtype)), name='delta_num')
-        tmp1 = tf.matmul(tf.matmul(u, sm), v)
+        tmp1 = tf.matmul(tf.matmul(u, sm), v, transpose_b=True)
         tmp2 = (tf.maximum(tf.cast(0, dtype=mat.dtype), delta_num-tao)
                 +tf.minimum(tf.cast(0, dtype=mat.dtype), delta_num+tao))*tf.ones(shape)/tf.sqrt(tf.cast(shape[0]*shape[1],
                                                                                                       dtype=mat.dtype))
-- 
2.43.0


From f01abb4ac45d14c558de7b802f740f888d2a0272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:46 +0000
Subject: [PATCH 09/17] fix: pitf_ops.adjoint_operator could not be built for
 dim=2

Shape inference rejects the negative-stride slice of the shape.
---
 tensorD/base/pitf_ops.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/tensorD/base/pitf_ops.py b/tensorD/base/pitf_ops.py
index 8711b5e..01459a1 100644
--- a/tensorD/base/pitf_ops.py
+++ b/tensorD/base/pitf_ops.py
@@ -414,8 +414,7 @@ def adjoint_operator(spl, sample_vec, shape, sp_num, dim=None):
         indices = tf.cast(indices, dtype=tf.int64)
         values = tf.cast(values, dtype=sample_vec.dtype)
         shape_t = tf.cast(shape, dtype=tf.int64)
-        shape_t_re = shape_t[::-1]
-        mat_shape = shape_t_re[0:3:2]
+        mat_shape = tf.stack([shape_t[2], shape_t[0]])
         # tensor = tf.sparse_to_dense(indices, mat_shape, value)
         delta = tf.SparseTensor(indices, values, mat_shape)
         dense_mat = tf.sparse_tensor_to_dense(delta, validate_indices=False,  name='adjoint_s2d_3')
-- 
2.43.0


From 651a955ec0f73b6cb0b701f92208afaafdce261f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:46 +0000
Subject: [PATCH 10/17] fix: pitf_ops.cone_projection_operator used tensors as
 Python booleans

In graph mode every call raised.
---
 tensorD/base/pitf_ops.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/tensorD/base/pitf_ops.py b/tensorD/base/pitf_ops.py
index 01459a1..d106315 100644
--- a/tensorD/base/pitf_ops.py
+++ b/tensorD/base/pitf_ops.py
@@ -545,14 +545,16 @@ def cone_projection_operator(x, t):
     >>> tf.Session().run(t1)
     """
     norm_x = tf.norm(x, ord='euclidean')
-    if norm_x <= t:
-        return x, t
-    if t <= tf.negative(norm_x):
-        return 0, 0
-    if t >= tf.negative(norm_x) and t <= norm_x:
+    t = tf.cast(t, dtype=x.dtype)
+
+    def boundary():
         tmp = (norm_x + t)/(2 * norm_x)
         return tmp*x, tmp*norm_x
 
+    return tf.case([(norm_x <= t, lambda: (x, t)),
+                    (t <= tf.negative(norm_x), lambda: (tf.zeros_like(x), tf.zeros_like(t)))],
+                   default=boundary)
+
 
 def SVT(mat, tao):
     """
-- 
2.43.0


From d28d44fba2747c0fc95b79bdc3068e08c9897370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:46 +0000
Subject: [PATCH 11/17] fix: PITF drew new sample positions in every training
 step

The entries of the sample vector then belonged to changing positions, and
the iteration did not converge.
---
 tensorD/factorization/pitf.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tensorD/factorization/pitf.py b/tensorD/factorization/pitf.py
index bb80ba3..3131796 100644
--- a/tensorD/factorization/pitf.py
+++ b/tensorD/factorization/pitf.py
@@ -45,7 +45,8 @@ class PITF(BaseFact):
                           name='tao')
         y = tf.Variable(np.zeros(spn), dtype=tensor.dtype, name='y_sample_vector')
         a, b, c = pitf_ops.sample3D_rule(shape, spn)  # sample list
-        spl = [a, b, c]
+        # keep one draw for the whole training, y[i] belongs to the i-th sample
+        spl = [tf.Variable(idx, trainable=False, name='sample_list') for idx in (a, b, c)]
         # # degree pf freedom
         # fd = r*(shape[0]+shape[1]-r)+r*(shape[1]+shape[2]-r) + \
         #      r*(shape[2]+shape[0]-r)
-- 
2.43.0


From c52081445129e5b2bf66c9b50f8313cc5246ab8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:36 +0000
Subject: [PATCH 12/17] fix: CP_ALS normalised by the largest signed entry of a
 column

A column without a positive entry but with a zero (any non-positive tensor
with an empty slice) was divided by zero and training failed in the SVD.
---
 tensorD/factorization/cp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tensorD/factorization/cp.py b/tensorD/factorization/cp.py
index b623be9..0c63a5d 100644
--- a/tensorD/factorization/cp.py
+++ b/tensorD/factorization/cp.py
@@ -93,7 +93,7 @@ class CP_ALS(BaseFact):
             non_norm_A = tf.matmul(XA, tf.py_func(np.linalg.pinv, [V], tf.float32, name='pinvV-%d' % mode),
                                    name='XApinvV-%d' % mode)
             with tf.name_scope('max-norm-%d' % mode) as scope:
-                lambda_op = tf.reduce_max(tf.reshape(non_norm_A, shape=(shape[mode], args.rank)), axis=0)
+                lambda_op = tf.reduce_max(tf.abs(tf.reshape(non_norm_A, shape=(shape[mode], args.rank))), axis=0)
                 assign_op[mode] = A[mode].assign(tf.div(non_norm_A, lambda_op))
 
         with tf.name_scope('full-tensor') as scope:
-- 
2.43.0


From 5eb54e319012f40df80e03ebe7510ed70006dad8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:43 +0000
Subject: [PATCH 13/17] fix: CP_ALS inverted singular Gram matrices with a
 cut-off below float32 precision

---
 tensorD/factorization/cp.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/tensorD/factorization/cp.py b/tensorD/factorization/cp.py
index 0c63a5d..5683320 100644
--- a/tensorD/factorization/cp.py
+++ b/tensorD/factorization/cp.py
@@ -8,6 +8,11 @@ from .factorization import Model, BaseFact
 from .env import Environment
 
 
+def _pinv(V):
+    # the default cut-off of numpy lies below the precision of float32
+    return np.linalg.pinv(V, rcond=V.shape[0] * np.finfo(V.dtype).eps)
+
+
 class CP_ALS(BaseFact):
     class CP_Args(object):
         def __init__(self,
@@ -90,7 +95,7 @@ class CP_ALS(BaseFact):
                 XA = tf.matmul(mats[mode], ops.khatri(A, mode, True), name='XA-%d' % mode)
 
             V = ops.hadamard(AtA, skip_matrices_index=mode)
-            non_norm_A = tf.matmul(XA, tf.py_func(np.linalg.pinv, [V], tf.float32, name='pinvV-%d' % mode),
+            non_norm_A = tf.matmul(XA, tf.py_func(_pinv, [V], tf.float32, name='pinvV-%d' % mode),
                                    name='XApinvV-%d' % mode)
             with tf.name_scope('max-norm-%d' % mode) as scope:
                 lambda_op = tf.reduce_max(tf.abs(tf.reshape(non_norm_A, shape=(shape[mode], args.rank))), axis=0)
-- 
2.43.0


From 7ad20fa146854a40f3252bd07343c1df4dc66ded Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:21 +0000
Subject: [PATCH 14/17] fix: PITF reported train_finish while a second training
 was running or had failed

---
 tensorD/factorization/pitf.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tensorD/factorization/pitf.py b/tensorD/factorization/pitf.py
index 3131796..984707e 100644
--- a/tensorD/factorization/pitf.py
+++ b/tensorD/factorization/pitf.py
@@ -114,6 +114,7 @@ class PITF(BaseFact):
         return self._is_train_finish
 
     def train(self, steps):
+        self._is_train_finish = False
         sess = self._env.sess
         args = self._args
         init_op = self._init_op
-- 
2.43.0


From 135eaf22f973362d31f357986de6725fd2f4bb1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:21 +0000
Subject: [PATCH 15/17] fix: PITF ignored the verbose argument

---
 tensorD/factorization/pitf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tensorD/factorization/pitf.py b/tensorD/factorization/pitf.py
index 984707e..2205e23 100644
--- a/tensorD/factorization/pitf.py
+++ b/tensorD/factorization/pitf.py
@@ -134,7 +134,7 @@ class PITF(BaseFact):
         f2 = open('pitf_e2.txt', 'w')
 
         for step in range(1, steps+1):
-            if (step == steps) or (step == 1) or (step % args.validation_internal == 0 and args.validation_internal !=-1):
+            if (step == steps) or args.verbose or (step == 1) or (step % args.validation_internal == 0 and args.validation_internal !=-1):
                 # ea, e1a, e2a,
                 e2a, loss_v, erate_v, self._sample_vector, sum_msg = sess.run([e2, loss_op, erate_op,
                                                                               sample_vector_update_op, sum_op])
-- 
2.43.0


From 45c53ff363138227e5e8b02f26534861fca39a68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:21 +0000
Subject: [PATCH 16/17] fix: keep the einsum labels of tensor and matrices
 apart in ttm

From order 14 on the letters counted down from 'z' for the tensor met those
counted up from 'a' for the matrices: the product failed or summed over the
wrong modes.
---
 tensorD/base/ops.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tensorD/base/ops.py b/tensorD/base/ops.py
index fcb9f83..4e03bc1 100644
--- a/tensorD/base/ops.py
+++ b/tensorD/base/ops.py
@@ -341,7 +341,7 @@ def ttm(tensor, matrices, axis=None, transpose=False, skip_matrices_index=None):
 
         # example: xyz,by,cz->xbc
         tensor_start = ord('z') - order + 1
-        mats_start = ord('a')
+        mats_start = ord('A')
         tensor_op = ''.join([chr(tensor_start + i) for i in range(order)])
         if transpose:
             mat_op = ','.join([chr(tensor_start + i) + chr(mats_start + i) for i in axis])
-- 
2.43.0


From 3be8464a084fe0e05c08b6f75330100f2c263102 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:21 +0000
Subject: [PATCH 17/17] fix: label more than 13 matrices in kron

Two letters per matrix were taken in a row from 'a', leaving the alphabet
with the 14th matrix.
---
 tensorD/base/ops.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/tensorD/base/ops.py b/tensorD/base/ops.py
index 4e03bc1..c879fe8 100644
--- a/tensorD/base/ops.py
+++ b/tensorD/base/ops.py
@@ -424,10 +424,9 @@ def kron(matrices, skip_matrices_index=None, reverse=False):
         matrices = _skip(matrices, skip_matrices_index)
         if reverse:
             matrices = matrices[::-1]
-        start = ord('a')
-        source = ','.join(chr(start + i) + chr(start + i + 1) for i in range(0, 2 * len(matrices), 2))
-        row = ''.join(chr(start + i) for i in range(0, 2 * len(matrices), 2))
-        col = ''.join(chr(start + i) for i in range(1, 2 * len(matrices), 2))
+        row = ''.join(chr(ord('a') + i) for i in range(len(matrices)))
+        col = ''.join(chr(ord('A') + i) for i in range(len(matrices)))
+        source = ','.join(r + c for r, c in zip(row, col))
         operation = source + '->' + row + col
         tmp = tf.einsum(operation, *matrices)
         r_size = np.prod([mat.get_shape()[0].value for mat in matrices])
-- 
2.43.0

