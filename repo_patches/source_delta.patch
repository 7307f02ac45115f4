From 1ecad5424e469d498a5a7a850400de0f8d09657c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:27:43 +0000
Subject: [PATCH 01/33] fix: Dropout backward pass scales deltas by
 1/(1-drop_prob) like the forward pass

---
 brainstorm/layers/dropout_layer.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/brainstorm/layers/dropout_layer.py b/brainstorm/layers/dropout_layer.py
index 88c0116..f6c8126 100644
--- a/brainstorm/layers/dropout_layer.py
+++ b/brainstorm/layers/dropout_layer.py
@@ -39,10 +39,11 @@ class DropoutLayerImpl(Layer):
         if training_pass:
             _h.generate_probability_mask(buffers.internals.mask,
                                          1 - self.drop_prob)
+            # scale the mask, so the backward pass uses the same factor
+            _h.mult_st(1 / (1 - self.drop_prob), buffers.internals.mask,
+                       out=buffers.internals.mask)
             _h.mult_tt(buffers.inputs.default, buffers.internals.mask,
                        out=buffers.outputs.default)
-            _h.mult_st(1 / (1 - self.drop_prob), buffers.outputs.default,
-                       out=buffers.outputs.default)
         else:
             _h.copy_to(buffers.inputs.default, buffers.outputs.default)
 
-- 
2.43.0


From 268c96cc8a1e64542dde07f9521b338e6d26b192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:27:43 +0000
Subject: [PATCH 02/33] fix: Lstm and ClockworkLstm gradients of recurrent and
 peephole weights use the initial context state

---
 brainstorm/layers/clockwork_lstm_layer.py | 12 ++++++------
 brainstorm/layers/lstm_layer.py           | 12 ++++++------
 2 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/brainstorm/layers/clockwork_lstm_layer.py b/brainstorm/layers/clockwork_lstm_layer.py
index 37819c8..d40da00 100644
--- a/brainstorm/layers/clockwork_lstm_layer.py
+++ b/brainstorm/layers/clockwork_lstm_layer.py
@@ -303,10 +303,10 @@ class ClockworkLstmLayerImpl(Layer):
         _h.dot_add_mm(flat_dOa, flat_outputs, dRo, transa=True)
         _h.dot_add_mm(flat_dZa, flat_outputs, dRz, transa=True)
 
-        _h.dot_add_mm(dIa[0], dy[-1], dRi, transa=True)
-        _h.dot_add_mm(dFa[0], dy[-1], dRf, transa=True)
-        _h.dot_add_mm(dOa[0], dy[-1], dRo, transa=True)
-        _h.dot_add_mm(dZa[0], dy[-1], dRz, transa=True)
+        _h.dot_add_mm(dIa[0], y[-1], dRi, transa=True)
+        _h.dot_add_mm(dFa[0], y[-1], dRf, transa=True)
+        _h.dot_add_mm(dOa[0], y[-1], dRo, transa=True)
+        _h.dot_add_mm(dZa[0], y[-1], dRz, transa=True)
 
         # Other Peephole connections
         dWcif_tmp = _h.allocate(flat_cell.shape)
@@ -318,9 +318,9 @@ class ClockworkLstmLayerImpl(Layer):
         _h.add_tt(dpf, dWc_tmp, dpf)
 
         dWcif_tmp = _h.allocate(dIa[0].shape)
-        _h.mult_tt(dCa[-1], dIa[0], dWcif_tmp)
+        _h.mult_tt(Ca[-1], dIa[0], dWcif_tmp)
         _h.sum_t(dWcif_tmp, axis=0, out=dWc_tmp)
         _h.add_tt(dpi, dWc_tmp, dpi)
-        _h.mult_tt(dCa[-1], dIa[0], dWcif_tmp)
+        _h.mult_tt(Ca[-1], dFa[0], dWcif_tmp)
         _h.sum_t(dWcif_tmp, axis=0, out=dWc_tmp)
         _h.add_tt(dpf, dWc_tmp, dpf)
diff --git a/brainstorm/layers/lstm_layer.py b/brainstorm/layers/lstm_layer.py
index 8433706..972903c 100644
--- a/brainstorm/layers/lstm_layer.py
+++ b/brainstorm/layers/lstm_layer.py
@@ -255,10 +255,10 @@ class LstmLayerImpl(Layer):
         _h.dot_add_mm(flat_dOa, flat_outputs, dRo, transa=True)
         _h.dot_add_mm(flat_dZa, flat_outputs, dRz, transa=True)
 
-        _h.dot_add_mm(dIa[0], dy[-1], dRi, transa=True)
-        _h.dot_add_mm(dFa[0], dy[-1], dRf, transa=True)
-        _h.dot_add_mm(dOa[0], dy[-1], dRo, transa=True)
-        _h.dot_add_mm(dZa[0], dy[-1], dRz, transa=True)
+        _h.dot_add_mm(dIa[0], y[-1], dRi, transa=True)
+        _h.dot_add_mm(dFa[0], y[-1], dRf, transa=True)
+        _h.dot_add_mm(dOa[0], y[-1], dRo, transa=True)
+        _h.dot_add_mm(dZa[0], y[-1], dRz, transa=True)
 
         # Other Peephole connections
         dWcif_tmp = _h.allocate(flat_cell.shape)
@@ -270,9 +270,9 @@ class LstmLayerImpl(Layer):
         _h.add_tt(dpf, dWc_tmp, dpf)
 
         dWcif_tmp = _h.allocate(dIa[0].shape)
-        _h.mult_tt(dCa[-1], dIa[0], dWcif_tmp)
+        _h.mult_tt(Ca[-1], dIa[0], dWcif_tmp)
         _h.sum_t(dWcif_tmp, axis=0, out=dWc_tmp)
         _h.add_tt(dpi, dWc_tmp, dpi)
-        _h.mult_tt(dCa[-1], dIa[0], dWcif_tmp)
+        _h.mult_tt(Ca[-1], dFa[0], dWcif_tmp)
         _h.sum_t(dWcif_tmp, axis=0, out=dWc_tmp)
         _h.add_tt(dpf, dWc_tmp, dpf)
-- 
2.43.0


From 1101056c19ac0da71e114bd0f4a47b822da22b00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:28:02 +0000
Subject: [PATCH 03/33] fix: BinomialCrossEntropy backward pass supports
 multi-dimensional features

---
 brainstorm/layers/binomial_cross_entropy_layer.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/brainstorm/layers/binomial_cross_entropy_layer.py b/brainstorm/layers/binomial_cross_entropy_layer.py
index 30b6579..a15b737 100644
--- a/brainstorm/layers/binomial_cross_entropy_layer.py
+++ b/brainstorm/layers/binomial_cross_entropy_layer.py
@@ -88,14 +88,14 @@ class BinomialCrossEntropyLayerImpl(Layer):
     def backward_pass(self, buffers):
         # prepare
         _h = self.handler
-        ceed_sum = buffers.output_deltas.default
-        ceed = buffers.internals.ceed
+        ceed_sum = flatten_time_and_features(buffers.output_deltas.default)
+        ceed = flatten_time_and_features(buffers.internals.ceed)
         tmp = _h.allocate(ceed.shape)
 
-        y = buffers.inputs.default
-        t = buffers.inputs.targets
+        y = flatten_time_and_features(buffers.inputs.default)
+        t = flatten_time_and_features(buffers.inputs.targets)
 
-        yd = buffers.input_deltas.default
+        yd = flatten_time_and_features(buffers.input_deltas.default)
 
         # the derivative of the binomial cross entropy error is given by
         # (y - t) / (y - y²)
@@ -110,7 +110,7 @@ class BinomialCrossEntropyLayerImpl(Layer):
 
         # ceed_sum has only one feature dimension due to summation,
         # so we broadcast to all feature dimensions
-        _h.broadcast_t(ceed_sum, 2, tmp)
+        _h.broadcast_t(ceed_sum, 1, tmp)
         _h.mult_tt(ceed, tmp, ceed)
 
         _h.add_tt(ceed, yd, yd)
-- 
2.43.0


From a7e4a9dd137a17eb186eb420b8bd628d86ed53c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:38:24 +0000
Subject: [PATCH 04/33] fix: clearing the context no longer erases the last
 time step of external inputs that share a buffer with a recurrent layer

---
 brainstorm/structure/buffers.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/brainstorm/structure/buffers.py b/brainstorm/structure/buffers.py
index ec773ea..e3d219b 100644
--- a/brainstorm/structure/buffers.py
+++ b/brainstorm/structure/buffers.py
@@ -141,8 +141,7 @@ class BufferManager(object):
         for hub, buf in zip(self.hubs, self.buffers):
             if hub.btype != 2 or not hub.context_size:
                 continue
-            self.handler.fill(
-                buf[self.time_size - hub.context_size:], 0.)
+            self.handler.fill(buf[self.time_size:], 0.)
 
     def clear_backward_buffers(self):
         for h, b in zip(self.hubs, self.buffers):
-- 
2.43.0


From 47d923777eb2f78c8c93fdeb0244ecb80a245385 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:39:54 +0000
Subject: [PATCH 05/33] fix: pooling kernels accept strided buffers
 (concatenated outputs)

---
 brainstorm/handlers/_cpuop.pyx | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/brainstorm/handlers/_cpuop.pyx b/brainstorm/handlers/_cpuop.pyx
index b27474c..dbf8a50 100644
--- a/brainstorm/handlers/_cpuop.pyx
+++ b/brainstorm/handlers/_cpuop.pyx
@@ -24,12 +24,12 @@ cdef inline int int_min(int a, int b) nogil: return a if a <= b else b
 
 @cython.boundscheck(False)
 @cython.wraparound(False)
-def maxpool_forward(DTYPE_t[:, :, :, ::1] inputs not None,
+def maxpool_forward(DTYPE_t[:, :, :, :] inputs not None,
             tuple kernel not None,
-            DTYPE_t[:, :, :, ::1] outputs not None,
+            DTYPE_t[:, :, :, :] outputs not None,
             int padding,
             tuple strides not None,
-            DTYPE_t[:, :, :, ::1] argmax not None):
+            DTYPE_t[:, :, :, :] argmax not None):
     cdef int pool_h = kernel[0]
     cdef int pool_w = kernel[1]
     cdef int stride_x = strides[1]
@@ -81,14 +81,14 @@ def maxpool_forward(DTYPE_t[:, :, :, ::1] inputs not None,
 
 @cython.boundscheck(False)
 @cython.wraparound(False)
-def maxpool_backward(DTYPE_t[:, :, :, ::1] inputs not None,
+def maxpool_backward(DTYPE_t[:, :, :, :] inputs not None,
                      tuple kernel not None,
-                     DTYPE_t[:, :, :, ::1] outputs not None,
+                     DTYPE_t[:, :, :, :] outputs not None,
                      const int padding,
                      tuple strides not None,
-                     DTYPE_t[:, :, :, ::1] argmax not None,
-                     DTYPE_t[:, :, :, ::1] in_deltas not None,
-                     DTYPE_t[:, :, :, ::1] out_deltas not None):
+                     DTYPE_t[:, :, :, :] argmax not None,
+                     DTYPE_t[:, :, :, :] in_deltas not None,
+                     DTYPE_t[:, :, :, :] out_deltas not None):
     cdef int pool_h = kernel[0]
     cdef int pool_w = kernel[1]
     cdef int stride_x = strides[1]
@@ -117,9 +117,9 @@ def maxpool_backward(DTYPE_t[:, :, :, ::1] inputs not None,
 
 @cython.boundscheck(False)
 @cython.wraparound(False)
-def avgpool_forward(DTYPE_t[:, :, :, ::1] inputs not None,
+def avgpool_forward(DTYPE_t[:, :, :, :] inputs not None,
             tuple kernel not None,
-            DTYPE_t[:, :, :, ::1] outputs not None,
+            DTYPE_t[:, :, :, :] outputs not None,
             int padding,
             tuple strides not None):
     # NOTE: Modified to count only non-padding pixels
@@ -164,13 +164,13 @@ def avgpool_forward(DTYPE_t[:, :, :, ::1] inputs not None,
 
 @cython.boundscheck(False)
 @cython.wraparound(False)
-def avgpool_backward(DTYPE_t[:, :, :, ::1] inputs not None,
+def avgpool_backward(DTYPE_t[:, :, :, :] inputs not None,
                      tuple kernel not None,
-                     DTYPE_t[:, :, :, ::1] outputs not None,
+                     DTYPE_t[:, :, :, :] outputs not None,
                      const int padding,
                      tuple strides not None,
-                     DTYPE_t[:, :, :, ::1] in_deltas not None,
-                     DTYPE_t[:, :, :, ::1] out_deltas not None):
+                     DTYPE_t[:, :, :, :] in_deltas not None,
+                     DTYPE_t[:, :, :, :] out_deltas not None):
     # NOTE: No modification need to count only non-padding pixels
     cdef int pool_h = kernel[0]
     cdef int pool_w = kernel[1]
-- 
2.43.0


From 8d71ddd647a2009a00d04c80a6c34d034c06f26b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:35:16 +0000
Subject: [PATCH 06/33] fix: data augmentation iterators no longer modify the
 dataset they read from

---
 brainstorm/data_iterators.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/brainstorm/data_iterators.py b/brainstorm/data_iterators.py
index aef02db..0039846 100644
--- a/brainstorm/data_iterators.py
+++ b/brainstorm/data_iterators.py
@@ -179,9 +179,11 @@ class Flip(DataIterator):
         for data in self.iter(handler):
             for name in self.prob_dict.keys():
                 assert isinstance(data[name], np.ndarray)
-                for i in range(data[name].shape[1]):
+                images = data[name].copy()
+                for i in range(images.shape[1]):
                     if self.rnd.random_sample() < self.prob_dict[name]:
-                        data[name][:, i, ...] = data[name][:, i, :, ::-1, :]
+                        images[:, i, ...] = data[name][:, i, :, ::-1, :]
+                data[name] = images
             yield data
 
 
@@ -394,7 +396,7 @@ class Undivided(DataIterator):
         self.total_size = int(sum(d.size for d in self.data.values()))
 
     def __call__(self, handler=None):
-        yield self.data
+        yield dict(self.data)
 
 
 class Minibatches(DataIterator):
-- 
2.43.0


From 18f710a76cbf1cdbee3c84dc85e032c2259f02cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:35:16 +0000
Subject: [PATCH 07/33] fix: Pad supports a padding size of zero

---
 brainstorm/data_iterators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/brainstorm/data_iterators.py b/brainstorm/data_iterators.py
index 0039846..f72328f 100644
--- a/brainstorm/data_iterators.py
+++ b/brainstorm/data_iterators.py
@@ -320,7 +320,7 @@ class Pad(DataIterator):
                 size = self.size_dict[name]
                 val = self.value_dict.get(name, 0.0)
                 new_data = val * np.ones((t, b, h + 2 * size, w + 2 * size, c))
-                new_data[:, :, size: -size, size: -size, :] = data[name]
+                new_data[:, :, size: size + h, size: size + w, :] = data[name]
                 data[name] = new_data
             yield data
 
-- 
2.43.0


From e6c9e95204aa19b2c37b37271a283e230dc71cf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:35:16 +0000
Subject: [PATCH 08/33] fix: RandomCrop supports single precision images

---
 brainstorm/data_iterators.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/brainstorm/data_iterators.py b/brainstorm/data_iterators.py
index f72328f..0ea875a 100644
--- a/brainstorm/data_iterators.py
+++ b/brainstorm/data_iterators.py
@@ -371,7 +371,8 @@ class RandomCrop(DataIterator):
                 max_c = w - crop_w
                 row_indices = self.rnd.random_integers(0, max_r, n)
                 col_indices = self.rnd.random_integers(0, max_c, n)
-                cropped = np.zeros((t, n, crop_h, crop_w, c))
+                cropped = np.zeros((t, n, crop_h, crop_w, c),
+                                   dtype=data[name].dtype)
                 _crop_images(data[name], crop_h, crop_w, row_indices,
                              col_indices, cropped)
                 data[name] = cropped
-- 
2.43.0


From ee02eeab7a4e09963a521c1bbc9b81a82919c5ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:35:16 +0000
Subject: [PATCH 09/33] fix: ForwardStepper returns the loss instead of calling
 a missing method

---
 brainstorm/training/steppers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/brainstorm/training/steppers.py b/brainstorm/training/steppers.py
index 286e547..be4df9e 100644
--- a/brainstorm/training/steppers.py
+++ b/brainstorm/training/steppers.py
@@ -40,7 +40,7 @@ class ForwardStepper(TrainingStepper):
 
     def run(self):
         self.net.forward_pass(training_pass=self.use_training_pass)
-        return self.net.get_loss_value()
+        return self.net.get_loss_values()['total_loss']
 
 
 class SgdStepper(TrainingStepper):
-- 
2.43.0


From 640e6513e1a55ddac321cf7f6b7d9390016dd8d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:53:11 +0000
Subject: [PATCH 10/33] fix: MonitorLayerDeltas failed with a KeyError on
 layers that have inputs

---
 brainstorm/hooks.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/brainstorm/hooks.py b/brainstorm/hooks.py
index 7dd32e4..b3e6c21 100644
--- a/brainstorm/hooks.py
+++ b/brainstorm/hooks.py
@@ -243,9 +243,9 @@ class MonitorLayerDeltas(Hook):
         for key, v in net.buffer[self.layer_name].input_deltas.items():
             key_log = in_deltas_log[key] = OrderedDict()
             v = net.handler.get_numpy_copy(v)
-            key_log[key]['min'] = v.min()
-            key_log[key]['avg'] = v.mean()
-            key_log[key]['max'] = v.max()
+            key_log['min'] = v.min()
+            key_log['avg'] = v.mean()
+            key_log['max'] = v.max()
 
         return log
 
-- 
2.43.0


From 21ce93ad06719e071712fc79e6ad070668f7cb99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:53:11 +0000
Subject: [PATCH 11/33] fix: SaveBestNetwork.load_best_network no longer fails
 if nothing improved yet

---
 brainstorm/hooks.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/brainstorm/hooks.py b/brainstorm/hooks.py
index b3e6c21..d1e520b 100644
--- a/brainstorm/hooks.py
+++ b/brainstorm/hooks.py
@@ -118,7 +118,7 @@ class SaveBestNetwork(Hook):
                                               interval, verbose)
         self.log_name = log_name
         self.filename = filename
-        self.best_parameters = None
+        self.parameters = None
         assert criterion == 'min' or criterion == 'max'
         self.best_so_far = np.inf if criterion == 'min' else -np.inf
         self.best_t = None
-- 
2.43.0


From 866ff9016aa39d8a40f15577ff8d5e02d0a1dff8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:53:11 +0000
Subject: [PATCH 12/33] fix: StopAfterThresholdReached and StopOnNan failed
 before the first epoch when the log was not there yet

---
 brainstorm/hooks.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/brainstorm/hooks.py b/brainstorm/hooks.py
index d1e520b..d919b10 100644
--- a/brainstorm/hooks.py
+++ b/brainstorm/hooks.py
@@ -599,6 +599,11 @@ class StopAfterThresholdReached(Hook):
         self.criterion = criterion
 
     def __call__(self, epoch_nr, update_nr, net, stepper, logs):
+        if epoch_nr == 0:
+            try:
+                e = get_by_path(logs, self.log_name)
+            except KeyError:
+                return
         e = get_by_path(logs, self.log_name)
         is_threshold_reached = False
         if self.criterion == 'max' and max(e) >= self.threshold:
@@ -650,6 +655,11 @@ class StopOnNan(Hook):
 
     def __call__(self, epoch_nr, update_nr, net, stepper, logs):
         for log_name in self.logs_to_check:
+            if epoch_nr == 0:
+                try:
+                    log = get_by_path(logs, log_name)
+                except KeyError:
+                    continue
             log = get_by_path(logs, log_name)
             if not np.all(np.isfinite(log)):
                 self.message("NaN or inf detected in {}!".format(log_name))
-- 
2.43.0


From 1e2dcc7fda1ebbd2a3bd2e495f3bbe1ba0a61181 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:19:19 +0000
Subject: [PATCH 13/33] fix: Uniform created from a description had no random
 state

---
 brainstorm/initializers.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/brainstorm/initializers.py b/brainstorm/initializers.py
index 7001f56..f3898e3 100644
--- a/brainstorm/initializers.py
+++ b/brainstorm/initializers.py
@@ -382,9 +382,13 @@ class Uniform(Initializer):
         super(Uniform, self).__init__()
         self.low = low
         self.high = high
-        self.__init_from_description__(None)
+        self._set_interval()
 
     def __init_from_description__(self, description):
+        super(Uniform, self).__init_from_description__(description)
+        self._set_interval()
+
+    def _set_interval(self):
         if self.high is None:
             self.low, self.high = sorted([-self.low, self.low])
         assert self.low < self.high, \
-- 
2.43.0


From 444eba7944d1b8fe7f795137d4f8422b85759c81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:19:19 +0000
Subject: [PATCH 14/33] fix: MaskValues created from a description kept its
 mask as a list

---
 brainstorm/value_modifiers.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/brainstorm/value_modifiers.py b/brainstorm/value_modifiers.py
index 0f91e75..dc6aa7a 100644
--- a/brainstorm/value_modifiers.py
+++ b/brainstorm/value_modifiers.py
@@ -137,6 +137,10 @@ class MaskValues(ValueModifier):
         self.mask = mask
         self.device_mask = None
 
+    def __init_from_description__(self, description):
+        super(MaskValues, self).__init_from_description__(description)
+        self.mask = np.array(self.mask)
+
     def __call__(self, handler, view):
         if (self.device_mask is None or
                 not isinstance(self.device_mask, handler.array_type)):
-- 
2.43.0


From e7c44e75c9f3cea11fbfcc7a573ad44b42c8f777 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:19:19 +0000
Subject: [PATCH 15/33] fix: hooks described their training state (iterators,
 best value)

---
 brainstorm/hooks.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/brainstorm/hooks.py b/brainstorm/hooks.py
index d919b10..4cb6e6f 100644
--- a/brainstorm/hooks.py
+++ b/brainstorm/hooks.py
@@ -109,7 +109,8 @@ class SaveBestNetwork(Hook):
             ...                                       filename='best_loss.h5',
         ...                                           criterion='min'))
     """
-    __undescribed__ = {'parameters': None}
+    __undescribed__ = {'parameters': None, 'best_so_far': None,
+                       'best_t': None}
     __default_values__ = {'filename': None}
 
     def __init__(self, log_name, filename=None, criterion='max', name=None,
@@ -124,6 +125,10 @@ class SaveBestNetwork(Hook):
         self.best_t = None
         self.criterion = criterion
 
+    def __init_from_description__(self, description):
+        super(SaveBestNetwork, self).__init_from_description__(description)
+        self.best_so_far = np.inf if self.criterion == 'min' else -np.inf
+
     def __call__(self, epoch_nr, update_nr, net, stepper, logs):
         if epoch_nr == 0:
             try:
@@ -355,6 +360,8 @@ class MonitorLoss(Hook):
     Monitor the losses computed by the network on a dataset using a given data
     iterator.
     """
+    __undescribed__ = {'iter': None}
+
     def __init__(self, iter_name, name=None, timescale='epoch', interval=1,
                  verbose=None):
         super(MonitorLoss, self).__init__(name, timescale, interval, verbose)
@@ -401,6 +408,8 @@ class MonitorScores(Hook):
         MonitorLoss: monitor the overall loss of the network.
 
     """
+    __undescribed__ = {'iter': None}
+
     def __init__(self, iter_name, scorers, name=None, timescale='epoch',
                  interval=1, verbose=None):
 
@@ -831,6 +840,8 @@ else:
 
 class ProgressBar(Hook):
     """ Adds a progress bar to show the training progress. """
+    __undescribed__ = {'length': None, 'bar': None}
+
     def __init__(self):
         super(ProgressBar, self).__init__(None, 'update', 1)
         self.length = None
-- 
2.43.0


From 2a7c4ae96b3b382583abbefefe0bf60837799368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:19:19 +0000
Subject: [PATCH 16/33] fix: SparseInputs/SparseOutputs did not seed their
 sub-initializer

---
 brainstorm/initializers.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/brainstorm/initializers.py b/brainstorm/initializers.py
index f3898e3..6bf1263 100644
--- a/brainstorm/initializers.py
+++ b/brainstorm/initializers.py
@@ -334,7 +334,8 @@ class SparseInputs(Initializer):
             raise InitializationError("Input dimension to small: {} < {}"
                                       "".format(shape[0], self.connections))
 
-        sub_result = evaluate_initializer(self.sub_initializer, shape)
+        sub_result = evaluate_initializer(self.sub_initializer, shape,
+                                          seed=self.rnd.generate_seed())
         connection_mask = np.zeros(shape)
         connection_mask[:self.connections, :] = 1.
         for i in range(shape[1]):
@@ -363,7 +364,8 @@ class SparseOutputs(Initializer):
         if shape[1] < self.connections:
             raise InitializationError("Output dimension to small: {} < {}"
                                       "".format(shape[1], self.connections))
-        sub_result = evaluate_initializer(self.sub_initializer, shape)
+        sub_result = evaluate_initializer(self.sub_initializer, shape,
+                                          seed=self.rnd.generate_seed())
         connection_mask = np.zeros(shape)
         connection_mask[:, :self.connections] = 1.
         for i in range(shape[0]):
-- 
2.43.0


From 41cfe21655e1fa0ed5fb13043b83ca3dc05b155c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:19:19 +0000
Subject: [PATCH 17/33] fix: Network.from_hdf5 used the removed h5py
 Dataset.value

---
 brainstorm/structure/network.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/brainstorm/structure/network.py b/brainstorm/structure/network.py
index a0f4dbf..88d39b5 100644
--- a/brainstorm/structure/network.py
+++ b/brainstorm/structure/network.py
@@ -95,10 +95,10 @@ class Network(Seedable):
             :meth:`.save_as_hdf5`
         """
         with h5py.File(filename, 'r') as f:
-            description = json.loads(f['description'].value.decode())
+            description = json.loads(f['description'][()].decode())
             net = create_from_description(description)
             net.handler.set_from_numpy(net.buffer.parameters,
-                                       f['parameters'].value)
+                                       f['parameters'][()])
         return net
 
     def __init__(self, layers, buffer_manager, architecture, seed=None,
-- 
2.43.0


From 667c8e7621068ef252b55e40b86cfafe521ac69f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:19:19 +0000
Subject: [PATCH 18/33] fix: Network.initialize changed the caller's dictionary

---
 brainstorm/structure/network.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/brainstorm/structure/network.py b/brainstorm/structure/network.py
index 88d39b5..f54c1a4 100644
--- a/brainstorm/structure/network.py
+++ b/brainstorm/structure/network.py
@@ -245,7 +245,7 @@ class Network(Seedable):
         all_parameters = {k: v.parameters
                           for k, v in self.buffer.items()
                           if isinstance(v, BufferView) and 'parameters' in v}
-        _replace_lists_with_array_initializers(init_refs)
+        init_refs = _replace_lists_with_array_initializers(init_refs)
         initializers, fallback = resolve_references(all_parameters, init_refs)
         init_rnd = self.rnd.create_random_state(seed)
         for layer_name, views in sorted(all_parameters.items()):
@@ -545,7 +545,7 @@ def _update_references_with_dict(refs, ref_dict):
     if refs is None:
         references = dict()
     elif isinstance(refs, dict):
-        references = refs
+        references = dict(refs)
     else:
         references = {'default': refs}
 
@@ -559,8 +559,11 @@ def _update_references_with_dict(refs, ref_dict):
 
 
 def _replace_lists_with_array_initializers(ref_dict):
+    result = {}
     for key, value in ref_dict.items():
         if isinstance(value, dict):
-            _replace_lists_with_array_initializers(value)
+            value = _replace_lists_with_array_initializers(value)
         elif isinstance(value, (list, np.ndarray)):
-            ref_dict[key] = ArrayInitializer(value)
+            value = ArrayInitializer(value)
+        result[key] = value
+    return result
-- 
2.43.0


From 90575495fe874c5ad2030d3bebdb401dcb7a41a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:19:19 +0000
Subject: [PATCH 19/33] fix: description of a network that was never
 initialised could not be loaded

---
 brainstorm/structure/network.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/brainstorm/structure/network.py b/brainstorm/structure/network.py
index f54c1a4..c0d71df 100644
--- a/brainstorm/structure/network.py
+++ b/brainstorm/structure/network.py
@@ -70,7 +70,9 @@ class Network(Seedable):
     def __new_from_description__(cls, description):
         net = Network.from_architecture(description['architecture'])
         net.set_handler(create_from_description(description['handler']))
-        net.initialize(create_from_description(description['initializers']))
+        if description['initializers']:
+            net.initialize(
+                create_from_description(description['initializers']))
         net.set_gradient_modifiers(
             create_from_description(description['gradient_modifiers']))
         net.set_weight_modifiers(
-- 
2.43.0


From 8a358232d8e22d9060a3c2be2d10287e32b653aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:19:19 +0000
Subject: [PATCH 20/33] fix: layer names with a trailing newline were accepted

---
 brainstorm/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/brainstorm/utils.py b/brainstorm/utils.py
index 375f72c..23c0538 100644
--- a/brainstorm/utils.py
+++ b/brainstorm/utils.py
@@ -14,7 +14,7 @@ from brainstorm.__about__ import __version__
 product = lambda arr: reduce(operator.mul, arr, 1)
 
 
-PYTHON_IDENTIFIER = re.compile("^[_a-zA-Z][_a-zA-Z0-9]*$")
+PYTHON_IDENTIFIER = re.compile(r"^[_a-zA-Z][_a-zA-Z0-9]*\Z")
 
 NAME_BLACKLIST = {'default', 'fallback'}
 
-- 
2.43.0


From 947f3ada21de929f648b58f3106aa2b27a3973c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:26:39 +0000
Subject: [PATCH 21/33] fix: default handler's random state was not derived
 from global_rnd

---
 brainstorm/structure/network.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/brainstorm/structure/network.py b/brainstorm/structure/network.py
index c0d71df..a178df3 100644
--- a/brainstorm/structure/network.py
+++ b/brainstorm/structure/network.py
@@ -104,7 +104,7 @@ class Network(Seedable):
         return net
 
     def __init__(self, layers, buffer_manager, architecture, seed=None,
-                 handler=default_handler):
+                 handler=None):
         super(Network, self).__init__(seed)
         self.layers = layers
         self.loss_layers = _get_loss_layers(layers)
@@ -112,6 +112,9 @@ class Network(Seedable):
         self.buffer = self._buffer_manager.views
         self.architecture = architecture
         self.handler = None
+        if handler is None:
+            # not shared, so that its random state derives from global_rnd
+            handler = create_from_description(get_description(default_handler))
         self.set_handler(handler)
         self.initializers = {}
         self.weight_modifiers = {}
-- 
2.43.0


From 7ae571e31d0f3202df892c67cb1340e8ccbd3db9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:51 +0000
Subject: [PATCH 22/33] fix: targets_name passed to evaluate() was ignored

Scorers defaulted to targets_name='targets', which always took precedence
over the name given to evaluate(). An empty name (like for out_name and
mask_name) lets the function decide; its default still is 'targets'.
---
 brainstorm/scorers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/brainstorm/scorers.py b/brainstorm/scorers.py
index a0c13d4..43f0583 100644
--- a/brainstorm/scorers.py
+++ b/brainstorm/scorers.py
@@ -12,7 +12,7 @@ from brainstorm.describable import Describable
 # ----------------------------- Base Class ---------------------------------- #
 
 class Scorer(Describable):
-    def __init__(self, out_name='', targets_name='targets', mask_name='',
+    def __init__(self, out_name='', targets_name='', mask_name='',
                  name=None):
         self.out_name = out_name
         self.targets_name = targets_name
@@ -75,7 +75,7 @@ class Accuracy(Scorer):
 
 
 class Hamming(Scorer):
-    def __init__(self, threshold=0.5, out_name='', targets_name='targets',
+    def __init__(self, threshold=0.5, out_name='', targets_name='',
                  mask_name='', name=None):
         super(Hamming, self).__init__(out_name, targets_name, mask_name, name)
         self.threshold = threshold
-- 
2.43.0


From b8ca63316b093cc1e752d05783d3db17f3e1516e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:51 +0000
Subject: [PATCH 23/33] fix: RandomWalk drew weights with variance scale^2/N^2
 instead of scale^2/N

The scheme of Sussillo & Abbott draws the entries from a Gaussian with
variance 1/N, multiplied by the gain g.
---
 brainstorm/initializers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/brainstorm/initializers.py b/brainstorm/initializers.py
index 6bf1263..3782c07 100644
--- a/brainstorm/initializers.py
+++ b/brainstorm/initializers.py
@@ -309,7 +309,7 @@ class RandomWalk(Initializer):
         else:
             scale = self.scale
 
-        return scale * self.rnd.randn(*shape) / N
+        return scale * self.rnd.randn(*shape) / np.sqrt(N)
 
 
 class SparseInputs(Initializer):
-- 
2.43.0


From d9fbd53220f0eb76e83a899ba8ad918adf9702a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:09:53 +0000
Subject: [PATCH 24/33] fix: architectures with several Input layers were
 accepted

---
 brainstorm/structure/architecture.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/brainstorm/structure/architecture.py b/brainstorm/structure/architecture.py
index 722fa3a..799803c 100644
--- a/brainstorm/structure/architecture.py
+++ b/brainstorm/structure/architecture.py
@@ -109,8 +109,9 @@ def validate_architecture(architecture):
             'Could not find end layer(s) "{}"'.format(undefined_end_layers))
 
     # has exactly one Input and its called Input
-    if "Input" not in architecture or \
-            architecture['Input']['@type'] != 'Input':
+    input_layers = [name for name, layer in architecture.items()
+                    if layer['@type'] == 'Input']
+    if input_layers != ['Input']:
         raise NetworkValidationError(
             'Needs exactly one Input that is called "Input"')
 
-- 
2.43.0


From 495ff980360299ce3a4083a042091307383442ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:16:26 +0000
Subject: [PATCH 25/33] fix: Convolution2D accepted kernels that do not fit
 into the image

---
 brainstorm/layers/convolution_layer_2d.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/brainstorm/layers/convolution_layer_2d.py b/brainstorm/layers/convolution_layer_2d.py
index 533ef90..7578cdf 100644
--- a/brainstorm/layers/convolution_layer_2d.py
+++ b/brainstorm/layers/convolution_layer_2d.py
@@ -62,6 +62,9 @@ class Convolution2DLayerImpl(Layer):
                          stride[0]) + 1
         output_width = ((in_shape[1] + 2 * padding - kernel_y) //
                         stride[1]) + 1
+        assert output_height > 0 and output_width > 0, \
+            "Evaluated output height and width must be positive but were " \
+            "({}, {})".format(output_height, output_width)
         out_shape = (output_height, output_width, num_filters)
 
         outputs = OrderedDict()
-- 
2.43.0


From 509fa9c20479840a955b0bb294dcd787268c65e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:30:25 +0000
Subject: [PATCH 26/33] fix: extract and extract_and_save failed for batches of
 different length

---
 brainstorm/tools.py | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/brainstorm/tools.py b/brainstorm/tools.py
index 2b00f63..3075481 100644
--- a/brainstorm/tools.py
+++ b/brainstorm/tools.py
@@ -87,6 +87,7 @@ def extract(network, iter, buffer_names):
 
     Batches are returned as a dictionary, with one entry for each
     requested buffer, with the data in (T, B, ...) order.
+    Batches which are shorter than the longest one are padded with zeros.
 
     Args:
         network (brainstorm.structure.Network):
@@ -108,16 +109,21 @@ def extract(network, iter, buffer_names):
     nr_items = 0
     for _ in run_network(network, iterator, all_inputs=False):
         network.forward_pass()
-        first_pass = False if len(return_data) == len(buffer_names) else True
         for num, buffer_name in enumerate(buffer_names):
             data = network.get(buffer_name)
             if num == 0:
                 nr_items += data.shape[1]
-            if first_pass:
+            if buffer_name not in return_data:
                 data_shape = (data.shape[0], nr_examples) + data.shape[2:]
                 return_data[buffer_name] = np.zeros(data_shape, data.dtype)
-            return_data[buffer_name][:, nr_items - data.shape[1]:nr_items] = \
-                data
+            missing = data.shape[0] - return_data[buffer_name].shape[0]
+            if missing > 0:  # this batch is longer than all the previous ones
+                padding = np.zeros((missing, nr_examples) + data.shape[2:],
+                                   data.dtype)
+                return_data[buffer_name] = np.concatenate(
+                    (return_data[buffer_name], padding))
+            return_data[buffer_name][:data.shape[0],
+                                     nr_items - data.shape[1]:nr_items] = data
     return return_data
 
 
@@ -169,11 +175,14 @@ def extract_and_save(network, iter, buffer_names, file_name):
                 if first_pass:
                     ds.append(f.create_dataset(
                         buffer_name, data.shape, data.dtype, chunks=data.shape,
-                        maxshape=(data.shape[0], None) + data.shape[2:]))
+                        maxshape=(None, None) + data.shape[2:]))
                     ds[-1][:] = data
                 else:
                     ds[num].resize(size=nr_items, axis=1)
-                    ds[num][:, nr_items - data.shape[1]:nr_items, ...] = data
+                    if data.shape[0] > ds[num].shape[0]:
+                        ds[num].resize(size=data.shape[0], axis=0)
+                    ds[num][:data.shape[0],
+                            nr_items - data.shape[1]:nr_items, ...] = data
 
 
 def get_in_out_layers(task_type, in_shape, out_shape, data_name='default',
-- 
2.43.0


From cf54aedad6f90e8e2156cae74636d809fb9a2b32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:11 +0000
Subject: [PATCH 27/33] fix: NumpyHandler.el gave NaN for large inputs because
 exp overflowed

---
 brainstorm/handlers/numpy_handler.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/brainstorm/handlers/numpy_handler.py b/brainstorm/handlers/numpy_handler.py
index 64a344f..ae21c5e 100644
--- a/brainstorm/handlers/numpy_handler.py
+++ b/brainstorm/handlers/numpy_handler.py
@@ -301,10 +301,8 @@ class NumpyHandler(Handler):
         dx[:] = dy * (1. - y * y)
 
     def el(self, x, y):
-        # TODO: Optimize this implementation
-        y[:] = x * (x >= 0.) + (np.exp(x) - 1.) * (x < 0.)
+        # exp is only evaluated for x <= 0, where it cannot overflow
+        y[:] = np.maximum(x, 0.) + (np.exp(np.minimum(x, 0.)) - 1.)
 
     def el_deriv(self, x, y, dy, dx):
-        # TODO: Optimize this implementation
-        dx[:] = dy * (y >= 0.) + dy * (y + 1.) * (y < 0.)
-
+        dx[:] = dy * (np.minimum(y, 0.) + 1.)
-- 
2.43.0


From 5361d00a130c1464d7e39571dd68873aa6bbc1af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:25 +0000
Subject: [PATCH 28/33] fix: ConstrainL2Norm failed on a DebugHandler

---
 brainstorm/handlers/debug_handler.py |  4 ++++
 brainstorm/value_modifiers.py        | 10 ++++++----
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/brainstorm/handlers/debug_handler.py b/brainstorm/handlers/debug_handler.py
index cbe7437..11931cb 100644
--- a/brainstorm/handlers/debug_handler.py
+++ b/brainstorm/handlers/debug_handler.py
@@ -70,6 +70,10 @@ class DebugHandler(Handler):
     def __init_from_description__(self, description):
         self.__init__(self.handler)
 
+    @property
+    def dtype(self):
+        return self.handler.dtype
+
     # ------------------------- Allocate new memory ------------------------- #
 
     def allocate(self, shape):
diff --git a/brainstorm/value_modifiers.py b/brainstorm/value_modifiers.py
index dc6aa7a..6a3264f 100644
--- a/brainstorm/value_modifiers.py
+++ b/brainstorm/value_modifiers.py
@@ -75,11 +75,13 @@ class ConstrainL2Norm(ValueModifier):
         sq_norm = handler.allocate((view.shape[0], 1))
         divisor = handler.allocate(sq_norm.shape)
 
-        # FIXME: use handler operations for this
-        handler.sum_t(mat * mat, axis=1, out=sq_norm)
-        handler.mult_st(1 / self.limit, sq_norm ** 0.5, out=divisor)
+        sq = handler.allocate(mat.shape)
+        handler.mult_tt(mat, mat, out=sq)
+        handler.sum_t(sq, axis=1, out=sq_norm)
+        handler.sqrt_t(sq_norm, out=sq_norm)
+        handler.mult_st(1 / self.limit, sq_norm, out=divisor)
         handler.clip_t(divisor, a_min=1.0,
-                       a_max=np.finfo(handler.dtype).max, out=divisor)
+                       a_max=float(np.finfo(handler.dtype).max), out=divisor)
         handler.divide_mv(mat, divisor, mat)
 
     def __repr__(self):
-- 
2.43.0


From 2854ff8566c57104b840cccbbd3e4548aca53f43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:21 +0000
Subject: [PATCH 29/33] fix: create_net_from_spec ignored data_name when wiring
 the input

---
 brainstorm/tools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/brainstorm/tools.py b/brainstorm/tools.py
index 3075481..6bfc26e 100644
--- a/brainstorm/tools.py
+++ b/brainstorm/tools.py
@@ -584,7 +584,7 @@ def create_net_from_spec(task_type, in_shape, out_shape, spec,
 
     # spec = re.sub(r'\s', '', spec)  # remove whitespace
 
-    current_layer = inp
+    current_layer = inp - data_name
     for m in re.finditer(ARCH_SPEC, spec):
         layer_type = m.group('layer_type')
         args = re.split(ARG, m.group('args'))[1::2]
-- 
2.43.0


From 58a0f70f5b85a6a21e25319fef9074d4ad5edca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:21 +0000
Subject: [PATCH 30/33] fix: create_net_from_spec required whitespace between
 layers without arguments

---
 brainstorm/tools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/brainstorm/tools.py b/brainstorm/tools.py
index 6bfc26e..76ac87e 100644
--- a/brainstorm/tools.py
+++ b/brainstorm/tools.py
@@ -576,7 +576,7 @@ def create_net_from_spec(task_type, in_shape, out_shape, spec,
     output_name = 'Output.outputs.predictions'
 
     import re
-    LAYER_TYPE = r'\s*(?P<layer_type>[A-Z]+)\s*'
+    LAYER_TYPE = r'\s*(?P<layer_type>[A-Z])\s*'
     FLOAT = r'\s*[-+]?[0-9]*\.?[0-9]+\s*'
     ARG = r'\s*([a-z]|{float})\s*[:/|]?\s*'.format(float=FLOAT)
     ARG_LIST = r'(?P<args>({arg})*)'.format(arg=ARG)
-- 
2.43.0


From 49de40d53383af4d30bd27f7707eed0fa60b3be6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:30 +0000
Subject: [PATCH 31/33] fix: ProgressBar stopped or broke training that was
 continued

A finished bar raised StopIteration when train() was called again, which the
Trainer takes as the signal to stop, so no update was made; after a stop in
the middle of an epoch the epoch assertion failed. Count updates from the
start of training instead. Iterators of length one now show a bar, too.
---
 brainstorm/hooks.py | 27 +++++++++++++++++----------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/brainstorm/hooks.py b/brainstorm/hooks.py
index 4cb6e6f..d1469d5 100644
--- a/brainstorm/hooks.py
+++ b/brainstorm/hooks.py
@@ -840,29 +840,36 @@ else:
 
 class ProgressBar(Hook):
     """ Adds a progress bar to show the training progress. """
-    __undescribed__ = {'length': None, 'bar': None}
+    __undescribed__ = {'length': None, 'bar': None, 'first_update': None}
 
     def __init__(self):
         super(ProgressBar, self).__init__(None, 'update', 1)
         self.length = None
         self.bar = None
+        self.first_update = None
 
     def start(self, net, stepper, verbose, named_data_iters):
         assert 'training_data_iter' in named_data_iters
         self.length = named_data_iters['training_data_iter'].length
+        self.bar = None
+        self.first_update = None
 
     def __call__(self, epoch_nr, update_nr, net, stepper, logs):
-        assert epoch_nr == 0 or math.ceil(update_nr / self.length) == epoch_nr
-        if update_nr % self.length == 1:
+        if self.first_update is None:
+            # this call precedes the first update; training may be continued
+            self.first_update = update_nr
+        done = update_nr - self.first_update
+        if done == 0:
+            return
+        done = (done - 1) % self.length + 1
+        if done == 1:
             self.bar = progress_bar(self.length)
             print(next(self.bar), end='')
-            sys.stdout.flush()
-        elif update_nr % self.length == 0:
-            if self.bar:
-                print(self.bar.send(self.length))
-        else:
-            print(self.bar.send(update_nr % self.length), end='')
-            sys.stdout.flush()
+        if done == self.length:
+            print(self.bar.send(self.length))
+        elif done > 1:
+            print(self.bar.send(done), end='')
+        sys.stdout.flush()
 
 
 # ----------------------------- Miscellaneous ------------------------------- #
-- 
2.43.0


From 4454e44159f1e076960105e1fd78ca0e79c715ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:37 +0000
Subject: [PATCH 32/33] fix: Pad, RandomCrop, OneHot and MultiHot announced the
 shapes of their source

so that e.g. a RandomCrop after a Pad refused windows larger than the
original image, and one after another RandomCrop accepted too large ones.
---
 brainstorm/data_iterators.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/brainstorm/data_iterators.py b/brainstorm/data_iterators.py
index 0ea875a..40ca055 100644
--- a/brainstorm/data_iterators.py
+++ b/brainstorm/data_iterators.py
@@ -207,7 +207,7 @@ class OneHot(DataIterator):
                 Specifies the size of one hot vectors (the vocabulary size)
                 for some named data items.
         """
-        DataIterator.__init__(self, iter.data_shapes, iter.length)
+        DataIterator.__init__(self, dict(iter.data_shapes), iter.length)
         for key in vocab_size_dict.keys():
             if key not in iter.data_shapes:
                 raise IteratorValidationError(
@@ -218,6 +218,7 @@ class OneHot(DataIterator):
             shape = iter.data_shapes[key]
             if not (shape[-1] == 1 and len(shape) == 3):
                 raise IteratorValidationError("Only 3D data is supported")
+            self.data_shapes[key] = shape[:2] + (vocab_size_dict[key],)
         self.vocab_size_dict = vocab_size_dict
         self.iter = iter
 
@@ -252,7 +253,7 @@ class MultiHot(DataIterator):
                 Specifies the size of multi hot vectors (the vocabulary size)
                 for some named data items.
         """
-        DataIterator.__init__(self, iter.data_shapes, iter.length)
+        DataIterator.__init__(self, dict(iter.data_shapes), iter.length)
         for key in vocab_size_dict.keys():
             if key not in iter.data_shapes:
                 raise IteratorValidationError(
@@ -263,6 +264,7 @@ class MultiHot(DataIterator):
             shape = iter.data_shapes[key]
             if not len(shape) == 3:
                 raise IteratorValidationError("Only 3D data is supported")
+            self.data_shapes[key] = shape[:2] + (vocab_size_dict[key],)
         self.vocab_size_dict = vocab_size_dict
         self.iter = iter
 
@@ -295,7 +297,7 @@ class Pad(DataIterator):
             value_dict (dict[str, int]):
                 Specifies the pad values for some named data items.
         """
-        super(Pad, self).__init__(iter.data_shapes, iter.length)
+        super(Pad, self).__init__(dict(iter.data_shapes), iter.length)
         if value_dict is not None:
             if set(size_dict.keys()) != set(value_dict.keys()):
                 raise IteratorValidationError(
@@ -308,6 +310,9 @@ class Pad(DataIterator):
                     "}".format(key, iter.data_shapes.keys()))
             if len(iter.data_shapes[key]) != 5:
                 raise IteratorValidationError("Only 5D data is supported")
+            t, b, h, w, c = iter.data_shapes[key]
+            size = size_dict[key]
+            self.data_shapes[key] = (t, b, h + 2 * size, w + 2 * size, c)
         self.value_dict = {} if value_dict is None else value_dict
         self.size_dict = size_dict
         self.iter = iter
@@ -343,7 +348,7 @@ class RandomCrop(DataIterator):
             shape_dict (dict[str, (int, int)]):
                 Specifies the crop shapes for some named data items.
         """
-        super(RandomCrop, self).__init__(iter.data_shapes, iter.length)
+        super(RandomCrop, self).__init__(dict(iter.data_shapes), iter.length)
         for key, val in shape_dict.items():
             if key not in iter.data_shapes:
                 raise IteratorValidationError(
@@ -358,6 +363,7 @@ class RandomCrop(DataIterator):
                 raise IteratorValidationError("Invalid crop height")
             if val[1] > data_shape[3] or val[1] < 0:
                 raise IteratorValidationError("Invalid crop width")
+            self.data_shapes[key] = data_shape[:2] + val + data_shape[4:]
         self.shape_dict = shape_dict
         self.iter = iter
 
-- 
2.43.0


From 2c33bea021109f8ea76608ecf7bba3bcae16f44b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:44 +0000
Subject: [PATCH 33/33] fix: draw_network failed on architectures that list
 connections

'@outgoing_connections' may be a list, as everywhere else.
---
 brainstorm/tools.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/brainstorm/tools.py b/brainstorm/tools.py
index 76ac87e..83701b8 100644
--- a/brainstorm/tools.py
+++ b/brainstorm/tools.py
@@ -9,6 +9,7 @@ import six
 from brainstorm import layers, Network, initializers
 from brainstorm.scorers import (aggregate_losses_and_scores,
                                 gather_losses_and_scores)
+from brainstorm.structure.architecture import collect_all_connections
 from brainstorm.training.trainer import run_network
 from brainstorm.utils import get_by_path, get_brainstorm_info
 
@@ -31,10 +32,8 @@ def draw_network(network, file_name='network.png'):
     try:
         import pygraphviz as pgv
         graph = pgv.AGraph(directed=True)
-        for k, v in network.architecture.items():
-                for out_view, dest_list in v['@outgoing_connections'].items():
-                    for dest in dest_list:
-                        graph.add_edge(k, dest.split('.')[0])
+        for con in collect_all_connections(network.architecture):
+            graph.add_edge(con.start_layer, con.end_layer)
 
         graph.draw(file_name, prog='dot')
         print('Network drawing saved as {}'.format(file_name))
-- 
2.43.0

