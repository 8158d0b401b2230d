From 7d8134a0fa4180dc1cae3c031e0ca7733801346d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:48 +0000
Subject: [PATCH 01/95] fix: place ABY3 public inputs on the three servers

define_public_input put all three copies on the inputting player's device,
which ABY3PublicTensor rejects unless that player shares a device with every server.
---
 tf_encrypted/protocol/aby3/aby3.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/tf_encrypted/protocol/aby3/aby3.py b/tf_encrypted/protocol/aby3/aby3.py
index 4926c5b..503722f 100644
--- a/tf_encrypted/protocol/aby3/aby3.py
+++ b/tf_encrypted/protocol/aby3/aby3.py
@@ -714,7 +714,11 @@ class ABY3(Protocol):
             )
             v = self._encode(v, apply_scaling)
             w = factory.tensor(v)
-            return ABY3PublicTensor(self, [w, w, w], apply_scaling)
+            values = [None, None, None]
+            for i in range(3):
+                with tf.device(self.servers[i].device_name):
+                    values[i] = w.identity()
+            return ABY3PublicTensor(self, values, apply_scaling)
 
         with tf.name_scope("public-input{}".format(suffix)):
 
-- 
2.43.0


From 1d7fd1b8cfda5931c4c185d8f47b182792bf5654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:30:29 +0000
Subject: [PATCH 02/95] fix: add ABY3 public tensors on their own servers

_add_public_public had no device scopes, so the result was rejected by
ABY3PublicTensor whenever the servers are on different devices.
---
 tf_encrypted/protocol/aby3/aby3.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tf_encrypted/protocol/aby3/aby3.py b/tf_encrypted/protocol/aby3/aby3.py
index 503722f..1087781 100644
--- a/tf_encrypted/protocol/aby3/aby3.py
+++ b/tf_encrypted/protocol/aby3/aby3.py
@@ -2229,7 +2229,8 @@ def _add_public_public(prot, x, y):
     z = [None] * 3
     with tf.name_scope("add"):
         for i in range(3):
-            z[i] = x_shares[i] + y_shares[i]
+            with tf.device(prot.servers[i].device_name):
+                z[i] = x_shares[i] + y_shares[i]
 
     return ABY3PublicTensor(prot, z, x.is_scaled)
 
-- 
2.43.0


From bfd29c87767a030baf6d1ed77f227b0488aa0a60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:30:29 +0000
Subject: [PATCH 03/95] fix: multiply ABY3 public tensors by powers of two

mul sends powers of two to lshift, which had no public implementation.
---
 tf_encrypted/protocol/aby3/aby3.py | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/tf_encrypted/protocol/aby3/aby3.py b/tf_encrypted/protocol/aby3/aby3.py
index 1087781..5a0b6cc 100644
--- a/tf_encrypted/protocol/aby3/aby3.py
+++ b/tf_encrypted/protocol/aby3/aby3.py
@@ -3270,6 +3270,23 @@ def _lshift_private(prot, x, steps):
     return z
 
 
+def _lshift_public(prot, x, steps):
+    """
+    Left shift.
+    """
+    x_shares = x.unwrapped
+
+    z = [None, None, None]
+    with tf.name_scope("lshift"):
+        for i in range(3):
+            with tf.device(prot.servers[i].device_name):
+                z[i] = x_shares[i] << steps
+
+        z = ABY3PublicTensor(prot, z, x.is_scaled)
+
+    return z
+
+
 def _rshift_public(prot, x, steps):
     """
     Arithmetic right shift.
-- 
2.43.0


From ad4118ca7572bdce5a4d433800b537c3236849d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:31:09 +0000
Subject: [PATCH 04/95] fix: resolve negative and trailing axes of 128-bit
 tensors

Only -1 was mapped past the word axis: other negative axes reached the
kernels (aborting the process in reduce_sum) or addressed the word axis,
and stack(axis=-1) stacked before the last axis instead of after it.
---
 tf_encrypted/tensor/int128.py | 20 ++++++--------------
 1 file changed, 6 insertions(+), 14 deletions(-)

diff --git a/tf_encrypted/tensor/int128.py b/tf_encrypted/tensor/int128.py
index 9e7abe5..a5417a9 100644
--- a/tf_encrypted/tensor/int128.py
+++ b/tf_encrypted/tensor/int128.py
@@ -159,7 +159,7 @@ def int128_factory():  # pylint: disable=invalid-name
 
         def stack(self, xs: list, axis: int = 0):
             assert all(isinstance(x, Tensor) for x in xs)
-            axis = _lift_axis(axis, len(xs[0].shape))
+            axis = _lift_axis(axis, len(xs[0].shape) + 1)
 
             value = tf.stack([x.value for x in xs], axis=axis)
             return Tensor(value)
@@ -243,20 +243,12 @@ def int128_factory():  # pylint: disable=invalid-name
         raise TypeError("Don't know how to lift {} {}".format(type(x), type(y)))
 
     def _lift_axis(axis, dims):
+        if axis is None:
+            return None
         if isinstance(axis, (list, tuple)):
-            new_axis = []
-            for a in axis:
-                if a == -1:
-                    new_axis.append(dims - 1)
-                else:
-                    assert a < dims, "# dimensions: {}, got axis: {}".format(dims, axis)
-                    new_axis.append(a)
-            return new_axis
-        if axis == -1:
-            return dims - 1
-        if axis is not None:
-            assert axis < dims, "# dimensions: {}, got axis: {}".format(dims, axis)
-        return axis
+            return [_lift_axis(a, dims) for a in axis]
+        assert -dims <= axis < dims, "# dimensions: {}, got axis: {}".format(dims, axis)
+        return axis + dims if axis < 0 else axis
 
     FACTORY = Factory()  # pylint: disable=invalid-name
 
-- 
2.43.0


From 90eeb2f718fbedc4ff4599a1fc9973b7d8922cc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:34:15 +0000
Subject: [PATCH 05/95] fix: build ABY3 public zeros and ones

ABY3PublicTensor takes no share type, so public zeros and ones (and with
them padding a public tensor and extracting bit 0) always raised TypeError.
---
 tf_encrypted/protocol/aby3/aby3.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tf_encrypted/protocol/aby3/aby3.py b/tf_encrypted/protocol/aby3/aby3.py
index 5a0b6cc..68088c9 100644
--- a/tf_encrypted/protocol/aby3/aby3.py
+++ b/tf_encrypted/protocol/aby3/aby3.py
@@ -5409,7 +5409,7 @@ def _ones_public(prot, shape, apply_scaling, share_type, factory) -> ABY3PublicT
         with tf.device(prot.servers[2].device_name):
             x[2] = factory.tensor(prot._encode(tf.ones(shape), apply_scaling))
 
-    x = ABY3PublicTensor(prot, x, apply_scaling, share_type)
+    x = ABY3PublicTensor(prot, x, apply_scaling)
     return x
 
 
@@ -5450,7 +5450,7 @@ def _zeros_public(prot, shape, apply_scaling, share_type, factory) -> ABY3Public
         with tf.device(prot.servers[2].device_name):
             x[2] = factory.tensor(prot._encode(tf.zeros(shape), apply_scaling))
 
-    x = ABY3PublicTensor(prot, x, apply_scaling, share_type)
+    x = ABY3PublicTensor(prot, x, apply_scaling)
     return x
 
 
-- 
2.43.0


From 5e17a98a869b518baaacdaefdf2a5a38b968275a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:34:15 +0000
Subject: [PATCH 06/95] fix: 128-bit adders and bit decomposition beyond 64
 bits

The adder's mask for 64 to 127 bits did not fit the int64 it was cast to,
and bits() returned two overlapping decompositions of both words instead of
one decomposition with up to 128 bits.
---
 tf_encrypted/protocol/aby3/aby3.py |  2 +-
 tf_encrypted/tensor/int128.py      | 17 +++++++----------
 2 files changed, 8 insertions(+), 11 deletions(-)

diff --git a/tf_encrypted/protocol/aby3/aby3.py b/tf_encrypted/protocol/aby3/aby3.py
index 68088c9..e87a2f3 100644
--- a/tf_encrypted/protocol/aby3/aby3.py
+++ b/tf_encrypted/protocol/aby3/aby3.py
@@ -3551,7 +3551,7 @@ def _ppa_kogge_stone_private_private(prot, x, y, n_bits):
 
         if k < x.backing_dtype.nbits:
             mask = prot.define_constant(
-                np.array((1 << k) - 1).astype(np.int64), apply_scaling=False
+                np.array((1 << k) - 1, dtype=object), apply_scaling=False
             )
             z = z & mask
     return z
diff --git a/tf_encrypted/tensor/int128.py b/tf_encrypted/tensor/int128.py
index a5417a9..c417bfb 100644
--- a/tf_encrypted/tensor/int128.py
+++ b/tf_encrypted/tensor/int128.py
@@ -278,17 +278,14 @@ def int128_factory():  # pylint: disable=invalid-name
         def to_native(self) -> tf.Tensor:
             return self.factory._decode(self.value)
 
-        def bits(self, factory=None, bitsize=128) -> AbstractTensor:
+        def bits(self, factory=None, bitsize=None) -> AbstractTensor:
             factory = factory or FACTORY
-            if bitsize <= 64:
-                t = tf.gather(self.value, indices=0, axis=-1)
-                return factory.tensor(binarize(t, bitsize))
-            else:
-                t0 = tf.gather(self.value, 0, axis=-1)
-                t1 = tf.gather(self.value, 1, axis=-1)
-                t0 = binarize(t0, bitsize)
-                t1 = binarize(t1, bitsize)
-                return factory.tensor(tf.stack([t0, t1], axis=-1))
+            bitsize = 128 if bitsize is None else bitsize
+            t = binarize(tf.gather(self.value, 0, axis=-1), min(bitsize, 64))
+            if bitsize > 64:
+                t1 = binarize(tf.gather(self.value, 1, axis=-1), bitsize - 64)
+                t = tf.concat([t, t1], axis=-1)
+            return factory.tensor(t)
 
         def __repr__(self) -> str:
             return "{}(shape={})".format(type(self), self.shape)
-- 
2.43.0


From 40cec7491039a00c40299653af67df8b818a1796 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:38:36 +0000
Subject: [PATCH 07/95] fix: reduce_max over all axes with the network method

Without keepdims the maximum was never assigned, and with keepdims the
result had the rank of the flattened tensor.
---
 tf_encrypted/protocol/aby3/aby3.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/tf_encrypted/protocol/aby3/aby3.py b/tf_encrypted/protocol/aby3/aby3.py
index e87a2f3..317321f 100644
--- a/tf_encrypted/protocol/aby3/aby3.py
+++ b/tf_encrypted/protocol/aby3/aby3.py
@@ -5102,10 +5102,10 @@ def _reduce_max_network_private(
     with tf.name_scope("reduce-max-network"):
 
         if axis is None:
-            x = prot.reshape(x, [-1])
-            y = prot.sort(x, 0, acc=False)
+            y = prot.sort(prot.reshape(x, [-1]), 0, acc=False)
+            maximum = y[0]
             if keepdims:
-                maximum = prot.reshape(y[0], [1] * len(x.shape))
+                maximum = prot.reshape(maximum, [1] * len(x.shape))
         else:
             y = prot.sort(x, axis, acc=False)
             if keepdims:
-- 
2.43.0


From 60131d9db7174a347a3e5b6107831b7c85b1c098 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:38:36 +0000
Subject: [PATCH 08/95] fix: sort ABY3 tensors along an axis of length one

The bitonic network of one element has no stages, and stacking its empty
list of indices raised ValueError (also in reduce_max and softmax).
---
 tf_encrypted/protocol/aby3/aby3.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tf_encrypted/protocol/aby3/aby3.py b/tf_encrypted/protocol/aby3/aby3.py
index 317321f..7f403fc 100644
--- a/tf_encrypted/protocol/aby3/aby3.py
+++ b/tf_encrypted/protocol/aby3/aby3.py
@@ -5863,6 +5863,9 @@ def _sort_private(
         axis = axis % len(x.shape)
         if axis < 0:
             axis += len(x.shape)
+        if int(x.shape[axis]) == 1:
+            # There is nothing to compare
+            return x
         if axis != 0:
             x = prot.transpose(
                 x,
-- 
2.43.0


From b2de2c9974e9719534116e9a840aa0464800b3a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:50:03 +0000
Subject: [PATCH 09/95] fix: move the shares of the cheetah truncation to the
 server that holds them

---
 tf_encrypted/protocol/aby3/aby3.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/tf_encrypted/protocol/aby3/aby3.py b/tf_encrypted/protocol/aby3/aby3.py
index 7f403fc..7481246 100644
--- a/tf_encrypted/protocol/aby3/aby3.py
+++ b/tf_encrypted/protocol/aby3/aby3.py
@@ -2830,8 +2830,8 @@ def _truncate_msb0_cheetah_private(
         w[1][1] = w_bob ^ w[1][0]
 
     with tf.device(prot.servers[2].device_name):
-        w[2][0] = w[1][1]
-        w[2][1] = w_alice
+        w[2][0] = w[1][1].identity()
+        w[2][1] = w_alice.identity()
 
     # b2a. TODO: communication could be optimized from l to f
     w = prot.b2a_single(ABY3PrivateTensor(prot, w, False, ShareType.BOOLEAN))
@@ -2847,7 +2847,7 @@ def _truncate_msb0_cheetah_private(
         z[1][1] = x_bob_on_1_trunc - error[1][1]
     with tf.device(prot.servers[2].device_name):
         z[2][0] = x_bob_on_2_trunc - error[2][0]
-        z[2][1] = z[0][0]
+        z[2][1] = z[0][0].identity()
 
     z = ABY3PrivateTensor(prot, z, x.is_scaled, ShareType.ARITHMETIC)
     return z
-- 
2.43.0


From 6e73e292b35c4eaf7aeb937fc98add28751b1cc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:50:03 +0000
Subject: [PATCH 10/95] fix: multiply ABY3 public tensors by negative powers of
 two

---
 tf_encrypted/protocol/aby3/aby3.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tf_encrypted/protocol/aby3/aby3.py b/tf_encrypted/protocol/aby3/aby3.py
index 7481246..65591f9 100644
--- a/tf_encrypted/protocol/aby3/aby3.py
+++ b/tf_encrypted/protocol/aby3/aby3.py
@@ -1279,7 +1279,8 @@ class ABY3(Protocol):
         if exponent == 0:
             return x
         elif exponent < 0:
-            return self.truncate(x, amount=-exponent)
+            method = "local" if isinstance(x, ABY3PublicTensor) else "heuristic"
+            return self.truncate(x, method=method, amount=-exponent)
         else:
             return self.lshift(x, exponent)
 
-- 
2.43.0


From b70d3e66e0e95c4ea12eb147b2ed6189aeedd1e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:50:27 +0000
Subject: [PATCH 11/95] fix: move the shares of the local truncation to the
 server that holds them

---
 tf_encrypted/protocol/aby3/aby3.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tf_encrypted/protocol/aby3/aby3.py b/tf_encrypted/protocol/aby3/aby3.py
index 65591f9..082bd45 100644
--- a/tf_encrypted/protocol/aby3/aby3.py
+++ b/tf_encrypted/protocol/aby3/aby3.py
@@ -2754,7 +2754,7 @@ def _truncate_local_private(
         # server 1 sends `y1`
         with tf.device(prot.servers[0].device_name):
             y[0][0] = y0
-            y[0][1] = y1
+            y[0][1] = y1.identity()
         # Local
         with tf.device(prot.servers[1].device_name):
             y[1][0] = y1
@@ -2762,7 +2762,7 @@ def _truncate_local_private(
         # server 0 sends `y0`
         with tf.device(prot.servers[2].device_name):
             y[2][0] = r_on_2
-            y[2][1] = y0
+            y[2][1] = y0.identity()
 
     return ABY3PrivateTensor(prot, y, x.is_scaled, x.share_type)
 
-- 
2.43.0


From b7dc3b3f0ac11f19ea7a14b57f70eed5be58c7a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:54:42 +0000
Subject: [PATCH 12/95] fix: index 128-bit tensors with an ellipsis

---
 tf_encrypted/tensor/int128.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/tf_encrypted/tensor/int128.py b/tf_encrypted/tensor/int128.py
index c417bfb..14126e8 100644
--- a/tf_encrypted/tensor/int128.py
+++ b/tf_encrypted/tensor/int128.py
@@ -333,6 +333,11 @@ def int128_factory():  # pylint: disable=invalid-name
             return self.negative()
 
         def __getitem__(self, slc):
+            if not isinstance(slc, tuple):
+                slc = (slc,)
+            if any(s is Ellipsis for s in slc):
+                # keep the axis holding the two words
+                slc = slc + (slice(None),)
             return Tensor(self.value[slc])
 
         def add(self, other):
-- 
2.43.0


From 695962b29cf8eecc07348f218b77beb210ee99d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:54:42 +0000
Subject: [PATCH 13/95] fix: pass the paddings of native and 128-bit tensors to
 tf.pad

---
 tf_encrypted/tensor/int128.py | 2 +-
 tf_encrypted/tensor/native.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/tf_encrypted/tensor/int128.py b/tf_encrypted/tensor/int128.py
index 14126e8..8e6752a 100644
--- a/tf_encrypted/tensor/int128.py
+++ b/tf_encrypted/tensor/int128.py
@@ -190,7 +190,7 @@ def int128_factory():  # pylint: disable=invalid-name
 
         def pad(self, tensor, paddings):
             paddings = paddings + [[0, 0]]
-            return Tensor(tf.pad(tensor.value), paddings)
+            return Tensor(tf.pad(tensor.value, paddings))
 
         def ones_like(self, x: "Tensor"):
             return self.ones(x.shape)
diff --git a/tf_encrypted/tensor/native.py b/tf_encrypted/tensor/native.py
index 44171b0..d83f76f 100644
--- a/tf_encrypted/tensor/native.py
+++ b/tf_encrypted/tensor/native.py
@@ -224,7 +224,7 @@ def native_factory(
             return Tensor(tf.ones(shape, self.native_type))
 
         def pad(self, tensor, paddings):
-            return Tensor(tf.pad(tensor.value), paddings)
+            return Tensor(tf.pad(tensor.value, paddings))
 
         def ones_like(self, x: "Tensor"):
             return self.ones(x.shape)
-- 
2.43.0


From e4ea9f5a21979d07c525fc45b1f69d8d1c7be5a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:54:42 +0000
Subject: [PATCH 14/95] fix: zeros of native tensors are zeros

---
 tf_encrypted/tensor/native.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tf_encrypted/tensor/native.py b/tf_encrypted/tensor/native.py
index d83f76f..cc97af9 100644
--- a/tf_encrypted/tensor/native.py
+++ b/tf_encrypted/tensor/native.py
@@ -221,7 +221,7 @@ def native_factory(
         def zeros(self, shape):
             if not isinstance(shape, (list, tuple, TensorShape)):
                 raise TypeError("shape must be a list or tuple of integers")
-            return Tensor(tf.ones(shape, self.native_type))
+            return Tensor(tf.zeros(shape, self.native_type))
 
         def pad(self, tensor, paddings):
             return Tensor(tf.pad(tensor.value, paddings))
-- 
2.43.0


From 6055dfd85b3fbb73ca66f37bb4dd5df7169e5df0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:54:42 +0000
Subject: [PATCH 15/95] fix: patches2im with different strides or cropped
 widths

---
 tf_encrypted/tensor/shared.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/tf_encrypted/tensor/shared.py b/tf_encrypted/tensor/shared.py
index ae8817b..9f68ef8 100644
--- a/tf_encrypted/tensor/shared.py
+++ b/tf_encrypted/tensor/shared.py
@@ -103,16 +103,16 @@ def patches2im(
         patches = patches.reshape((bs, -1, ps_h, ps_w, col_ch))
 
         # Recalculate output shape of "extract_image_patches" including padded pixels
-        wout = (_w - 1) * strides[0] + ps_w
+        wout = (_w - 1) * strides[1] + ps_w
         # Recalculate output shape of "extract_image_patches" including padded pixels
-        hout = (_h - 1) * strides[1] + ps_h
+        hout = (_h - 1) * strides[0] + ps_h
 
         x, y = tf.meshgrid(tf.range(ps_w), tf.range(ps_h))
         x = tf.reshape(x, (1, 1, ps_h, ps_w, 1, 1))
         y = tf.reshape(y, (1, 1, ps_h, ps_w, 1, 1))
         xstart, ystart = tf.meshgrid(
-            tf.range(0, (wout - ps_w) + 1, strides[0]),
-            tf.range(0, (hout - ps_h) + 1, strides[1]),
+            tf.range(0, (wout - ps_w) + 1, strides[1]),
+            tf.range(0, (hout - ps_h) + 1, strides[0]),
         )
 
         bb = tf.zeros((1, np, ps_h, ps_w, col_ch, 1), dtype=tf.int32) + tf.reshape(
@@ -174,7 +174,7 @@ def patches2im(
 
             if img_w > wout:
                 reconstructed_img = reconstructed_img.factory.pad(
-                    reconstructed_img, [[0, 0], [0, 0], [0, img_w - hout], [0, 0]]
+                    reconstructed_img, [[0, 0], [0, 0], [0, img_w - wout], [0, 0]]
                 )
             elif img_w < wout:
                 pad_left = (wout - img_w) // 2
-- 
2.43.0


From c092e940e389c8721589ffcdfc89bc44e3fa50ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:00:14 +0000
Subject: [PATCH 16/95] fix: keep the highest power in exp2_pade

---
 tf_encrypted/protocol/aby3/aby3.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tf_encrypted/protocol/aby3/aby3.py b/tf_encrypted/protocol/aby3/aby3.py
index 082bd45..21d7219 100644
--- a/tf_encrypted/protocol/aby3/aby3.py
+++ b/tf_encrypted/protocol/aby3/aby3.py
@@ -5586,7 +5586,7 @@ def _exp2_pade_private(prot, x):
         x_pows = [0] * (degree + 1)
         x_pows[0] = 1
         x_pows[1] = x
-        for i in range(2, degree):
+        for i in range(2, degree + 1):
             x_pows[i] = x_pows[i // 2] * x_pows[(i + 1) // 2]
 
         y = [x_pows[i] * c[i] for i in range(degree + 1)]
-- 
2.43.0


From 94818e6118a75d737f33ea5caa71c7aea14a4bbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:00:58 +0000
Subject: [PATCH 17/95] fix: reciprocal of values in the upper half of the
 integral range

---
 tf_encrypted/protocol/aby3/fp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tf_encrypted/protocol/aby3/fp.py b/tf_encrypted/protocol/aby3/fp.py
index 633a7ae..4e329ae 100644
--- a/tf_encrypted/protocol/aby3/fp.py
+++ b/tf_encrypted/protocol/aby3/fp.py
@@ -217,7 +217,7 @@ def __fp_normalize(prot, b: "TFEPrivateTensor", nonsigned=False):
             sign, x = 1, b
 
         # bit-decomposition. Make sure the higher bits are all 0 via shifting.
-        x_bits = (prot.a2b(x, m) << (n - m)) >> (n - m)
+        x_bits = prot.logical_rshift(prot.a2b(x, m) << (n - m), n - m)
         """
            y_j = 1 <-> for all i <= j, y_i = 1.
            z_j = 1 <-> 2^j < x = 2^j + x0 < 2^{j+1}.
-- 
2.43.0


From 07088f5a275be9538749017578aafeaa1006347a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:26:15 +0000
Subject: [PATCH 18/95] fix: keep the reciprocal of overflowing values small

Reverts 94818e6: the shift that fills the high bits is what makes the
reciprocal of values beyond the integral range come out as zero, which
exp with approx_type as2019 relies on.
---
 tf_encrypted/protocol/aby3/fp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tf_encrypted/protocol/aby3/fp.py b/tf_encrypted/protocol/aby3/fp.py
index 4e329ae..633a7ae 100644
--- a/tf_encrypted/protocol/aby3/fp.py
+++ b/tf_encrypted/protocol/aby3/fp.py
@@ -217,7 +217,7 @@ def __fp_normalize(prot, b: "TFEPrivateTensor", nonsigned=False):
             sign, x = 1, b
 
         # bit-decomposition. Make sure the higher bits are all 0 via shifting.
-        x_bits = prot.logical_rshift(prot.a2b(x, m) << (n - m), n - m)
+        x_bits = (prot.a2b(x, m) << (n - m)) >> (n - m)
         """
            y_j = 1 <-> for all i <= j, y_i = 1.
            z_j = 1 <-> 2^j < x = 2^j + x0 < 2^{j+1}.
-- 
2.43.0


From e4456f02e038b2a20e28f4ae2d26d47a1be1d2a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:50:32 +0000
Subject: [PATCH 19/95] fix: mask every element of a broadcast ABY3 product

---
 tf_encrypted/protocol/aby3/aby3.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tf_encrypted/protocol/aby3/aby3.py b/tf_encrypted/protocol/aby3/aby3.py
index 21d7219..9a14ec1 100644
--- a/tf_encrypted/protocol/aby3/aby3.py
+++ b/tf_encrypted/protocol/aby3/aby3.py
@@ -2455,7 +2455,9 @@ def _mul_private_private(prot, x, y):
 
     z = [[None, None], [None, None], [None, None]]
     with tf.name_scope("mul"):
-        a0, a1, a2 = prot._gen_zero_sharing(x.shape)
+        # Every element of the (broadcast) product needs a mask of its own
+        shape = tf.broadcast_static_shape(x.shape, y.shape)
+        a0, a1, a2 = prot._gen_zero_sharing(shape)
         with tf.device(prot.servers[0].device_name):
             z0 = (
                 x_shares[0][0] * y_shares[0][0]
-- 
2.43.0


From f0d1d7a571ac4f2bcb9d405135f4fff228e35cf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:50:32 +0000
Subject: [PATCH 20/95] fix: mask every element of a broadcast ABY3 conjunction

---
 tf_encrypted/protocol/aby3/aby3.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tf_encrypted/protocol/aby3/aby3.py b/tf_encrypted/protocol/aby3/aby3.py
index 9a14ec1..fe1da00 100644
--- a/tf_encrypted/protocol/aby3/aby3.py
+++ b/tf_encrypted/protocol/aby3/aby3.py
@@ -3138,8 +3138,10 @@ def _and_private_private(prot: ABY3, x: ABY3PrivateTensor, y: ABY3PrivateTensor)
 
     z = [[None, None], [None, None], [None, None]]
     with tf.name_scope("and"):
+        # Every element of the (broadcast) conjunction needs a mask of its own
+        shape = tf.broadcast_static_shape(x.shape, y.shape)
         a0, a1, a2 = prot._gen_zero_sharing(
-            x.shape, share_type=ShareType.BOOLEAN, factory=x.backing_dtype
+            shape, share_type=ShareType.BOOLEAN, factory=x.backing_dtype
         )
 
         with tf.device(prot.servers[0].device_name):
-- 
2.43.0


From ffdb364bac3e4b98b0ad4fa5135aeedbb7ea5090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:50:32 +0000
Subject: [PATCH 21/95] fix: broadcasting in mul_trunc2

---
 tf_encrypted/protocol/aby3/aby3.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tf_encrypted/protocol/aby3/aby3.py b/tf_encrypted/protocol/aby3/aby3.py
index fe1da00..2731e1a 100644
--- a/tf_encrypted/protocol/aby3/aby3.py
+++ b/tf_encrypted/protocol/aby3/aby3.py
@@ -2513,7 +2513,7 @@ def _mul_trunc2_private_private(prot, x, y):
 
     x_shares = x.unwrapped
     y_shares = y.unwrapped
-    shape = x_shares[0][0].shape
+    shape = tf.broadcast_static_shape(x.shape, y.shape)
     amount = prot.fixedpoint_config.precision_fractional
 
     with tf.name_scope("mul_trunc2"):
@@ -2525,7 +2525,7 @@ def _mul_trunc2_private_private(prot, x, y):
         r_trunc = prot.b2a(r_trunc)
 
         # Step 2: Compute 3-out-of-3 sharing of (x*y - r)
-        a0, a1, a2 = prot._gen_zero_sharing(x.shape)
+        a0, a1, a2 = prot._gen_zero_sharing(shape)
         with tf.device(prot.servers[0].device_name):
             z0 = (
                 x_shares[0][0] * y_shares[0][0]
-- 
2.43.0


From b3003c1fda1285a57f91402fd1756a1673dc786e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:50:45 +0000
Subject: [PATCH 22/95] fix: cheetah truncation reused masks and sent a
 truncated share unmasked

---
 tf_encrypted/protocol/aby3/aby3.py | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/tf_encrypted/protocol/aby3/aby3.py b/tf_encrypted/protocol/aby3/aby3.py
index 2731e1a..7cf633a 100644
--- a/tf_encrypted/protocol/aby3/aby3.py
+++ b/tf_encrypted/protocol/aby3/aby3.py
@@ -2795,8 +2795,6 @@ def _truncate_msb0_cheetah_private(
         msb_bob_on_1 = x_bob_on_1.logical_rshift(x.backing_dtype.nbits - 1).cast(
             bfactory
         )
-        # x_B >> f
-        x_bob_on_1_trunc = x_bob_on_1.logical_rshift(amount)
     with tf.device(prot.servers[2].device_name):
         x_bob_on_2 = x_shares[2][0]
         msb_bob_on_2 = x_bob_on_2.logical_rshift(x.backing_dtype.nbits - 1).cast(
@@ -2836,21 +2834,33 @@ def _truncate_msb0_cheetah_private(
         w[2][0] = w[1][1].identity()
         w[2][1] = w_alice.identity()
 
+    # The masks above must not be drawn again by the following steps
+    prot._update_pairwise_nonces()
+
     # b2a. TODO: communication could be optimized from l to f
     w = prot.b2a_single(ABY3PrivateTensor(prot, w, False, ShareType.BOOLEAN))
 
     # Fix potential big error: w * 2^{l-f}
     error = (w << (x.backing_dtype.nbits - amount)).unwrapped
+    # The error only hides the top bits, so the shares are masked before they are sent
+    a0, a1, a2 = prot._gen_zero_sharing(shape, factory=x.backing_dtype)
+    with tf.device(prot.servers[0].device_name):
+        z0 = x_alice_trunc - error[0][0] + a0
+    with tf.device(prot.servers[1].device_name):
+        z1 = a1 - error[1][0]
+    with tf.device(prot.servers[2].device_name):
+        z2 = x_bob_on_2_trunc - error[2][0] + a2
+
     z = [[None, None], [None, None], [None, None]]
     with tf.device(prot.servers[0].device_name):
-        z[0][0] = x_alice_trunc - error[0][0]
-        z[0][1] = -error[0][1]
+        z[0][0] = z0
+        z[0][1] = z1.identity()
     with tf.device(prot.servers[1].device_name):
-        z[1][0] = -error[1][0]
-        z[1][1] = x_bob_on_1_trunc - error[1][1]
+        z[1][0] = z1
+        z[1][1] = z2.identity()
     with tf.device(prot.servers[2].device_name):
-        z[2][0] = x_bob_on_2_trunc - error[2][0]
-        z[2][1] = z[0][0].identity()
+        z[2][0] = z2
+        z[2][1] = z0.identity()
 
     z = ABY3PrivateTensor(prot, z, x.is_scaled, ShareType.ARITHMETIC)
     return z
-- 
2.43.0


From f89ef55c3ecdc69a76a4fd36183528a0e854c439 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:05:58 +0000
Subject: [PATCH 23/95] fix: draw new ABY3 masks in every run of a graph
 function

---
 tf_encrypted/protocol/aby3/aby3.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/tf_encrypted/protocol/aby3/aby3.py b/tf_encrypted/protocol/aby3/aby3.py
index 7cf633a..e9806f6 100644
--- a/tf_encrypted/protocol/aby3/aby3.py
+++ b/tf_encrypted/protocol/aby3/aby3.py
@@ -116,7 +116,7 @@ class ABY3(Protocol):
         return self.pairwise_nonces_
 
     def _update_pairwise_nonces(self):
-        self.pairwise_nonces_ += 1
+        self.pairwise_nonces_.assign_add([1, 1, 1])
 
     def b2a_keys_1(self):
         if not self.keys_initialized:
@@ -134,7 +134,7 @@ class ABY3(Protocol):
         return self.b2a_nonce_
 
     def _update_b2a_nonce(self):
-        self.b2a_nonce_ += 1
+        self.b2a_nonce_.assign_add(1)
 
     def initialize_keys(self):
         self._setup_pairwise_randomness()
@@ -190,7 +190,9 @@ class ABY3(Protocol):
                 keys[2][1] = seed_0
 
             # nonces[0] for server 0 and 1, nonces[1] for server 1 and 2, nonces[2] for server 2 and 0
-            nonces = np.array([0, 0, 0], dtype=np.int64)
+            # NOTE: The nonces are variables such that every run of a graph draws new masks
+            with tf.init_scope():
+                nonces = tf.Variable([0, 0, 0], dtype=seed_0.dtype, trainable=False)
 
             self.pairwise_keys_ = keys
             self.pairwise_nonces_ = nonces
@@ -276,7 +278,8 @@ class ABY3(Protocol):
                 b2a_keys_2[2][1] = seed_1
                 b2a_keys_2[2][2] = seed_2
 
-            b2a_nonce = 0
+            with tf.init_scope():
+                b2a_nonce = tf.Variable(0, dtype=seed_0.dtype, trainable=False)
             self.b2a_keys_1_ = b2a_keys_1
             self.b2a_keys_2_ = b2a_keys_2
             self.b2a_nonce_ = b2a_nonce
-- 
2.43.0


From 85b328abf20c9cacc1ca389805703e6ac642b970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:06:33 +0000
Subject: [PATCH 24/95] fix: unseeded secure randomness is stateful, so graphs
 draw anew

---
 operations/secure_random/secure_random.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/operations/secure_random/secure_random.cc b/operations/secure_random/secure_random.cc
index 27616dd..11c4bba 100644
--- a/operations/secure_random/secure_random.cc
+++ b/operations/secure_random/secure_random.cc
@@ -75,6 +75,7 @@ REGISTER_OP("SecureRandomUniform")
     .Output("output: dtype")
     .Attr("dtype: {int8, int16, int32, int64} = DT_INT32")
     .Attr("T: {int32, int64} = DT_INT32")
+    .SetIsStateful()
     .SetShapeFn(RandomUniformShapeCommon);
   
 REGISTER_OP("I128SecureSeededRandomUniform")
@@ -95,6 +96,7 @@ REGISTER_OP("I128SecureRandomUniform")
     .Output("output: dtype")
     .Attr("dtype: {int64} = DT_INT64")
     .Attr("T: {int32, int64} = DT_INT32")
+    .SetIsStateful()
     .SetShapeFn(I128RandomUniformShapeCommon);
 
 REGISTER_OP("SecureSeed")
-- 
2.43.0


From 67562146a88312aed840bbdfa1f4f07c533b10e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:12:38 +0000
Subject: [PATCH 25/95] fix: private times public matmul sent server 1's share
 to server 0

---
 tf_encrypted/protocol/pond/pond.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tf_encrypted/protocol/pond/pond.py b/tf_encrypted/protocol/pond/pond.py
index 7b11193..868b17f 100644
--- a/tf_encrypted/protocol/pond/pond.py
+++ b/tf_encrypted/protocol/pond/pond.py
@@ -3149,7 +3149,7 @@ def _matmul_private_public(prot, x, y):
         with tf.device(prot.server_0.device_name):
             z0 = x0.matmul(y_on_0)
 
-        with tf.device(prot.server_0.device_name):
+        with tf.device(prot.server_1.device_name):
             z1 = x1.matmul(y_on_1)
 
         z = PondPrivateTensor(prot, z0, z1, x.is_scaled or y.is_scaled)
-- 
2.43.0


From 1ad5c00bca743d72dc2b59acc5a02751a73ccd76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:12:38 +0000
Subject: [PATCH 26/95] fix: compute public equality on both servers

---
 tf_encrypted/protocol/pond/pond.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tf_encrypted/protocol/pond/pond.py b/tf_encrypted/protocol/pond/pond.py
index 868b17f..f91e103 100644
--- a/tf_encrypted/protocol/pond/pond.py
+++ b/tf_encrypted/protocol/pond/pond.py
@@ -4472,7 +4472,7 @@ def _equal_public_public(
         with tf.device(prot.server_0.device_name):
             z_on_0 = x_on_0.equal(y_on_0)
 
-        with tf.device(prot.server_0.device_name):
+        with tf.device(prot.server_1.device_name):
             z_on_1 = x_on_1.equal(y_on_1)
 
         return PondPublicTensor(prot, z_on_0, z_on_1, False)
-- 
2.43.0


From 9b18b076c2d5b0d37bf2ccdfd690024fa0b24f74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:12:38 +0000
Subject: [PATCH 27/95] fix: squeeze of masked tensors

---
 tf_encrypted/protocol/pond/pond.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/tf_encrypted/protocol/pond/pond.py b/tf_encrypted/protocol/pond/pond.py
index f91e103..456676d 100644
--- a/tf_encrypted/protocol/pond/pond.py
+++ b/tf_encrypted/protocol/pond/pond.py
@@ -4427,11 +4427,11 @@ def _squeeze_masked(
 ) -> PondMaskedTensor:
     assert isinstance(x, PondMaskedTensor)
 
-    _, a0, a1, alpha_on_0, alpha_on_1 = x.unwrapped
+    a, a0, a1, alpha_on_0, alpha_on_1 = x.unwrapped
 
     with tf.name_scope("squeeze"):
 
-        a_squeezed = prot.triple_source.squeeze_mask(axis=axis)
+        a_squeezed = prot.triple_source.squeeze_mask(a, axis=axis)
 
         with tf.device(prot.server_0.device_name):
             a0_squeezed = a0.squeeze(axis)
@@ -4443,7 +4443,7 @@ def _squeeze_masked(
 
         return PondMaskedTensor(
             prot,
-            prot.squeeze(x.unmasked),
+            prot.squeeze(x.unmasked, axis=axis),
             a_squeezed,
             a0_squeezed,
             a1_squeezed,
-- 
2.43.0


From 10e2249be27b3f69d79567b00509d4bf9c62acc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:12:38 +0000
Subject: [PATCH 28/95] fix: strided_slice of masked tensors, and its cache key

---
 tf_encrypted/protocol/pond/pond.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/tf_encrypted/protocol/pond/pond.py b/tf_encrypted/protocol/pond/pond.py
index 456676d..e273469 100644
--- a/tf_encrypted/protocol/pond/pond.py
+++ b/tf_encrypted/protocol/pond/pond.py
@@ -47,6 +47,7 @@ from ..protocol import TFEPublicTensor
 from ..protocol import TFEPublicVariable
 from ..protocol import TFETensor
 from ..protocol import TFETensorBone
+from ..protocol import make_hashable
 from ..protocol import memoize
 from ..protocol import nodes
 from .triple_sources import BaseTripleSource
@@ -1172,7 +1173,7 @@ class Pond(Protocol):
         documentation.
         """
 
-        node_key = ("strided_slice", x)
+        node_key = ("strided_slice", x, make_hashable(args), make_hashable(kwargs))
 
         x_sliced = nodes.get(node_key, None)
 
@@ -1185,7 +1186,6 @@ class Pond(Protocol):
             x_sliced = _strided_slice_private(self, x, args, kwargs)
         elif isinstance(x, PondMaskedTensor):
             x_sliced = _strided_slice_masked(self, x, args, kwargs)
-            nodes[("strided_slice", x.unmasked)] = x_sliced.unmasked
         else:
             raise TypeError(
                 ("Don't know how to do a strided slice on " " {}").format(type(x))
@@ -3718,7 +3718,7 @@ def _strided_slice_masked(prot, x: PondMaskedTensor, args: Any, kwargs: Any):
 
         return PondMaskedTensor(
             prot,
-            prot.strided_slice(x.unmasked, args, kwargs),
+            prot.strided_slice(x.unmasked, *args, **kwargs),
             a_slice,
             a0_slice,
             a1_slice,
-- 
2.43.0


From 2eb9ab521dbeaf05da4a4af12fe706282fb24699 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:12:38 +0000
Subject: [PATCH 29/95] fix: cache transposes per permutation

---
 tf_encrypted/protocol/pond/pond.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tf_encrypted/protocol/pond/pond.py b/tf_encrypted/protocol/pond/pond.py
index e273469..404764b 100644
--- a/tf_encrypted/protocol/pond/pond.py
+++ b/tf_encrypted/protocol/pond/pond.py
@@ -1081,7 +1081,7 @@ class Pond(Protocol):
         :param List perm: A permutation of axis indices.
         """
 
-        node_key = ("transpose", x)
+        node_key = ("transpose", x, make_hashable(perm))
         x_t = nodes.get(node_key, None)
 
         if x_t is not None:
-- 
2.43.0


From 20321f3419fbe935f3f1335dd9fc570f5e917aa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:12:38 +0000
Subject: [PATCH 30/95] fix: cache stacks per axis

---
 tf_encrypted/protocol/pond/pond.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tf_encrypted/protocol/pond/pond.py b/tf_encrypted/protocol/pond/pond.py
index 404764b..257ea06 100644
--- a/tf_encrypted/protocol/pond/pond.py
+++ b/tf_encrypted/protocol/pond/pond.py
@@ -1208,7 +1208,7 @@ class Pond(Protocol):
     def stack(self, xs: List["PondTensor"], axis=0):
         """See tf.stack."""
 
-        node_key = ("stack", tuple(xs))
+        node_key = ("stack", tuple(xs), axis)
         xs_stack = nodes.get(node_key, None)
 
         if xs_stack is not None:
-- 
2.43.0


From 7865d4338c205758f545d1b5bb9dffdf2fed577f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:12:38 +0000
Subject: [PATCH 31/95] fix: accept lists as conv2d strides

---
 tf_encrypted/protocol/pond/pond.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tf_encrypted/protocol/pond/pond.py b/tf_encrypted/protocol/pond/pond.py
index 257ea06..552dafa 100644
--- a/tf_encrypted/protocol/pond/pond.py
+++ b/tf_encrypted/protocol/pond/pond.py
@@ -1379,7 +1379,7 @@ class Pond(Protocol):
     def conv2d(self, x, w, strides, padding):
         """See tf.nn.conv2d."""
 
-        node_key = ("conv2d", x, w, strides, padding)
+        node_key = ("conv2d", x, w, make_hashable(strides), padding)
         z = nodes.get(node_key, None)
 
         if z is not None:
-- 
2.43.0


From 512eb0ce6acb5b5b4a4aac14fd861e10adf0cd9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:12:38 +0000
Subject: [PATCH 32/95] fix: division by a float

---
 tf_encrypted/protocol/pond/pond.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tf_encrypted/protocol/pond/pond.py b/tf_encrypted/protocol/pond/pond.py
index 552dafa..986df0a 100644
--- a/tf_encrypted/protocol/pond/pond.py
+++ b/tf_encrypted/protocol/pond/pond.py
@@ -1043,7 +1043,7 @@ class Pond(Protocol):
 
         if isinstance(y, float):
             y_inverse = 1.0 / y
-        if isinstance(y, int):
+        elif isinstance(y, int):
             y_inverse = 1.0 / float(y)
         elif isinstance(y, PondPublicTensor):
             y_inverse = self.reciprocal(y)
-- 
2.43.0


From 846901e07133be02e1f7b417393ba5611d169331 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:12:38 +0000
Subject: [PATCH 33/95] fix: average pooling of whole blocks

---
 tf_encrypted/protocol/pond/pond.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/tf_encrypted/protocol/pond/pond.py b/tf_encrypted/protocol/pond/pond.py
index 986df0a..b2560cb 100644
--- a/tf_encrypted/protocol/pond/pond.py
+++ b/tf_encrypted/protocol/pond/pond.py
@@ -3371,8 +3371,7 @@ def _avgpool2d_im2col_reduce(
 def _avgpool2d_reshape_reduce(x, pool_size: Tuple[int, int], *args):
     """Perform 2D average pooling by the reshape method."""
     del args
-    pool_height = tf.Dimension(pool_size[0])
-    pool_width = tf.Dimension(pool_size[1])
+    pool_height, pool_width = pool_size
     n, c, h, w = x.shape
     return (
         x.reshape([n, c, h // pool_height, pool_height, w // pool_width, pool_width])
-- 
2.43.0


From 817a17e2b0adc9f5059fa0bbbdcb0541c53e6102 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:12:38 +0000
Subject: [PATCH 34/95] fix: padding of unscaled tensors

---
 tf_encrypted/protocol/pond/pond.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tf_encrypted/protocol/pond/pond.py b/tf_encrypted/protocol/pond/pond.py
index b2560cb..454cd9a 100644
--- a/tf_encrypted/protocol/pond/pond.py
+++ b/tf_encrypted/protocol/pond/pond.py
@@ -1495,7 +1495,7 @@ class Pond(Protocol):
                 zval1 = tf.zeros(shape, dtype=backing_type.native_type)
                 zeros1 = backing_type.tensor(zval1)
 
-            return tensor_type(self, zeros0, zeros1, True)
+            return tensor_type(self, zeros0, zeros1, x.is_scaled)
 
         def prepend_zeros(tensor, pad_amt, axis):
 
-- 
2.43.0


From 1ac0dced721d85c6c519b6279ab9bd5611d4ecd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:16:59 +0000
Subject: [PATCH 35/95] fix: number plus Pond tensor

---
 tf_encrypted/protocol/pond/pond.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tf_encrypted/protocol/pond/pond.py b/tf_encrypted/protocol/pond/pond.py
index 454cd9a..207fc58 100644
--- a/tf_encrypted/protocol/pond/pond.py
+++ b/tf_encrypted/protocol/pond/pond.py
@@ -1697,7 +1697,7 @@ class PondTensor(TFETensor):
         return self.prot.add(self, other)
 
     def __radd__(self, other):
-        return other.prot.add(other, self)
+        return self.prot.add(self, other)
 
     def reduce_sum(self, axis=None, keepdims=None):
         """
-- 
2.43.0


From bd3ce696e88da8d41d9c03c57b2b81ebabd3be3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:27:27 +0000
Subject: [PATCH 36/95] fix: relu of tensors that are split

---
 tf_encrypted/protocol/securenn/securenn.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tf_encrypted/protocol/securenn/securenn.py b/tf_encrypted/protocol/securenn/securenn.py
index 09eece2..52a2cd5 100644
--- a/tf_encrypted/protocol/securenn/securenn.py
+++ b/tf_encrypted/protocol/securenn/securenn.py
@@ -384,7 +384,7 @@ class SecureNN(Pond):
             drelu = []
 
             for i, _ in enumerate(xs):
-                d, r = actual_relu_with_cmp(xs[i], "subrelu")
+                r, d = actual_relu_with_cmp(xs[i], "subrelu")
                 res.append(r)
                 drelu.append(d)
             return self.concat(res, axis=-1), self.concat(drelu, axis=-1)
-- 
2.43.0


From 651a50474087f94944cb7fa3855226bed07dc4ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:27:27 +0000
Subject: [PATCH 37/95] fix: pass both strides to im2col

---
 tf_encrypted/protocol/securenn/securenn.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tf_encrypted/protocol/securenn/securenn.py b/tf_encrypted/protocol/securenn/securenn.py
index 52a2cd5..1e97335 100644
--- a/tf_encrypted/protocol/securenn/securenn.py
+++ b/tf_encrypted/protocol/securenn/securenn.py
@@ -812,11 +812,11 @@ def _im2col(
 
     with tf.device(prot.server_0.device_name):
         x_split = x_on_0.reshape((batch * channels, 1, height, width))
-        y_on_0 = x_split.im2col(pool_height, pool_width, strides[0], padding)
+        y_on_0 = x_split.im2col(pool_height, pool_width, list(strides), padding)
 
     with tf.device(prot.server_1.device_name):
         x_split = x_on_1.reshape((batch * channels, 1, height, width))
-        y_on_1 = x_split.im2col(pool_height, pool_width, strides[0], padding)
+        y_on_1 = x_split.im2col(pool_height, pool_width, list(strides), padding)
 
     return y_on_0, y_on_1, [out_height, out_width, int(batch), int(channels)]
 
-- 
2.43.0


From a6e585ee446e8a68ea270e1e3f09c0ef37bf40f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:27:27 +0000
Subject: [PATCH 38/95] fix: maxpool2d of masked tensors

---
 tf_encrypted/protocol/securenn/securenn.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tf_encrypted/protocol/securenn/securenn.py b/tf_encrypted/protocol/securenn/securenn.py
index 1e97335..29f3503 100644
--- a/tf_encrypted/protocol/securenn/securenn.py
+++ b/tf_encrypted/protocol/securenn/securenn.py
@@ -861,7 +861,7 @@ def _maxpool2d_masked(
     padding: str,
 ) -> PondPrivateTensor:
     with tf.name_scope("maxpool2d"):
-        return prot.maxpool2d(x.unwrapped, pool_size, strides, padding)
+        return prot.maxpool2d(x.unmasked, pool_size, strides, padding)
 
 
 #
-- 
2.43.0


From 30c61cdc0f2c5491b0c145110ff435ff621b3c23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:27:27 +0000
Subject: [PATCH 39/95] fix: cast_backing of masked tensors

---
 tf_encrypted/protocol/securenn/securenn.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/tf_encrypted/protocol/securenn/securenn.py b/tf_encrypted/protocol/securenn/securenn.py
index 29f3503..b6a3915 100644
--- a/tf_encrypted/protocol/securenn/securenn.py
+++ b/tf_encrypted/protocol/securenn/securenn.py
@@ -905,3 +905,8 @@ def _cast_backing_private(prot, x: PondPrivateTensor, backing_dtype):
             y1 = x1.cast(backing_dtype)
 
         return PondPrivateTensor(prot, y0, y1, x.is_scaled)
+
+
+def _cast_backing_masked(prot, x: PondMaskedTensor, backing_dtype):
+    """Cast a masked tensor's backing dtype."""
+    return prot.cast_backing(x.unmasked, backing_dtype)
-- 
2.43.0


From b7c6318ecbf419fa16c9170f4e6a7e02d94a5165 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:27:27 +0000
Subject: [PATCH 40/95] fix: argmax along an axis of length one

---
 tf_encrypted/protocol/securenn/securenn.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tf_encrypted/protocol/securenn/securenn.py b/tf_encrypted/protocol/securenn/securenn.py
index b6a3915..10e275f 100644
--- a/tf_encrypted/protocol/securenn/securenn.py
+++ b/tf_encrypted/protocol/securenn/securenn.py
@@ -548,7 +548,8 @@ class SecureNN(Pond):
 
             tensors = self.split(x, int(x.shape[axis]), axis=axis)
             indices = [
-                self.define_constant(np.array([i])) for i, _ in enumerate(tensors)
+                self.define_constant(np.full(t.shape.as_list(), i))
+                for i, t in enumerate(tensors)
             ]
 
             with tf.name_scope("comparison-tree"):
-- 
2.43.0


From 8ab16fc60c95c14dd4b59eff23d5b3897f98a3fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:27:27 +0000
Subject: [PATCH 41/95] fix: uniform sampling of odd tensors

---
 tf_encrypted/protocol/securenn/odd_tensor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tf_encrypted/protocol/securenn/odd_tensor.py b/tf_encrypted/protocol/securenn/odd_tensor.py
index 729adff..ff5cba1 100644
--- a/tf_encrypted/protocol/securenn/odd_tensor.py
+++ b/tf_encrypted/protocol/securenn/odd_tensor.py
@@ -303,7 +303,7 @@ def odd_factory(NATIVE_TYPE):  # pylint: disable=invalid-name
             minval=NATIVE_TYPE.min + 1,
             maxval=NATIVE_TYPE.max,
         )
-        shifted_values = unshifted_value + tf.ones(
+        shifted_values = unshifted_value - tf.ones(
             shape=unshifted_value.shape, dtype=unshifted_value.dtype
         )
         value = tf.where(unshifted_value < 0, shifted_values, unshifted_value)
-- 
2.43.0


From 8925816d9db88f196e5cf77167e1383c7aa72bfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:27:56 +0000
Subject: [PATCH 42/95] fix: hide the outcome of the comparison from server 2

---
 tf_encrypted/protocol/securenn/securenn.py | 30 ++++++++++++++++++++--
 1 file changed, 28 insertions(+), 2 deletions(-)

diff --git a/tf_encrypted/protocol/securenn/securenn.py b/tf_encrypted/protocol/securenn/securenn.py
index 10e275f..aa1f6aa 100644
--- a/tf_encrypted/protocol/securenn/securenn.py
+++ b/tf_encrypted/protocol/securenn/securenn.py
@@ -752,11 +752,26 @@ def _private_compare(
             c_masked = c * mask
             assert c_masked.backing_dtype == prime_dtype
 
-            # TODO[Morten] permute
+            # server 2 generated the sharing of `x_bits` so the masked values must
+            # be re-randomized before they are sent, and each bit sequence must be
+            # rotated by a random offset to hide where its zero is; the remaining
+            # entries are uniform so there is no need for a full permutation
+            with tf.device(prot.server_0.device_name):
+                zero_raw0 = prime_dtype.sample_uniform(c.shape)
+                offset_raw0 = prime_dtype.sample_uniform(out_shape, maxval=bit_length)
+            with tf.device(prot.server_1.device_name):
+                zero_raw1 = zero_raw0.identity()
+                offset_raw1 = offset_raw0.identity()
+
+            c_masked0, c_masked1 = c_masked.unwrapped
+            with tf.device(prot.server_0.device_name):
+                d0 = _rotate(c_masked0 + zero_raw0, offset_raw0)
+            with tf.device(prot.server_1.device_name):
+                d1 = _rotate(c_masked1 - zero_raw1, offset_raw1)
 
             # reconstruct masked values on server 2 to find entries with zeros
             with tf.device(prot.server_2.device_name):
-                d = prot._reconstruct(*c_masked.unwrapped)
+                d = prot._reconstruct(d0, d1)
                 # find all zero entries
                 zeros = d.equal_zero(out_dtype)
                 # for each bit sequence, determine whether it has one or no zero in it
@@ -768,6 +783,17 @@ def _private_compare(
         return result
 
 
+def _rotate(x: AbstractTensor, offset: AbstractTensor) -> AbstractTensor:
+    """Rotate each sequence along the last axis of `x` by its own `offset`."""
+    length = int(x.shape[-1])
+    positions = tf.range(length, dtype=offset.value.dtype)
+    indices = tf.math.floormod(tf.expand_dims(offset.value, -1) + positions, length)
+    rotated = tf.gather(
+        x.value, indices, axis=-1, batch_dims=indices.shape.rank - 1
+    )
+    return x.factory.tensor(rotated)
+
+
 def _equal_zero_public(prot, x: PondPublicTensor, dtype=None):
     """Check if a public tensor's values equal zero."""
 
-- 
2.43.0


From 69a6b02ecb7a6cdb15e374ffb2a56f71ca81eca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:35:08 +0000
Subject: [PATCH 43/95] fix: comparisons of values that are one unit apart

---
 tf_encrypted/protocol/securenn/securenn.py | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/tf_encrypted/protocol/securenn/securenn.py b/tf_encrypted/protocol/securenn/securenn.py
index aa1f6aa..693e4a2 100644
--- a/tf_encrypted/protocol/securenn/securenn.py
+++ b/tf_encrypted/protocol/securenn/securenn.py
@@ -896,6 +896,18 @@ def _maxpool2d_masked(
 #
 
 
+def _cast_raw(x: AbstractTensor, backing_dtype):
+    """
+    Cast a raw tensor, keeping the signed value it represents: casting the word of
+    a negative value into the odd dtype turns it into its successor since the
+    modulus is one smaller, and -1 would not be representable.
+    """
+    if backing_dtype.modulus == x.factory.modulus - 1:
+        value = x.value
+        x = x.factory.tensor(tf.where(value < 0, value - 1, value))
+    return x.cast(backing_dtype)
+
+
 def _cast_backing_public(prot, x: PondPublicTensor, backing_dtype):
     """Cast a public tensor's backing dtype."""
     # See refactoring comment below under private version.
@@ -905,10 +917,10 @@ def _cast_backing_public(prot, x: PondPublicTensor, backing_dtype):
     with tf.name_scope("cast_backing"):
 
         with tf.device(prot.server_0.device_name):
-            y_on_0 = x_on_0.cast(backing_dtype)
+            y_on_0 = _cast_raw(x_on_0, backing_dtype)
 
         with tf.device(prot.server_1.device_name):
-            y_on_1 = x_on_1.cast(backing_dtype)
+            y_on_1 = _cast_raw(x_on_1, backing_dtype)
 
         return PondPublicTensor(prot, y_on_0, y_on_1, x.is_scaled)
 
@@ -926,10 +938,10 @@ def _cast_backing_private(prot, x: PondPrivateTensor, backing_dtype):
     with tf.name_scope("cast_backing"):
 
         with tf.device(prot.server_0.device_name):
-            y0 = x0.cast(backing_dtype)
+            y0 = _cast_raw(x0, backing_dtype)
 
         with tf.device(prot.server_1.device_name):
-            y1 = x1.cast(backing_dtype)
+            y1 = _cast_raw(x1, backing_dtype)
 
         return PondPrivateTensor(prot, y0, y1, x.is_scaled)
 
-- 
2.43.0


From 36a4dbeeb6826c6aa00e670ba81774175d87fd1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:36:11 +0000
Subject: [PATCH 44/95] fix: relu of vectors that are split

---
 tf_encrypted/protocol/securenn/securenn.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tf_encrypted/protocol/securenn/securenn.py b/tf_encrypted/protocol/securenn/securenn.py
index 693e4a2..85f5f0f 100644
--- a/tf_encrypted/protocol/securenn/securenn.py
+++ b/tf_encrypted/protocol/securenn/securenn.py
@@ -369,7 +369,7 @@ class SecureNN(Pond):
         # close as possible to `maxsize` (but possibly larger)
 
         # compute how large the last dimension can be while being at least 1
-        max_last_dimension = max(max_size // np.prod(shape[:-1]), 1)
+        max_last_dimension = max(max_size // int(np.prod(shape[:-1])), 1)
         # compute split vector
         last_dimension = shape[-1]
         number_of_max_last_dimension = last_dimension // max_last_dimension
-- 
2.43.0


From d9d4409d15daadd6a77e9ec89f2ba842e70d0230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:26 +0000
Subject: [PATCH 45/95] fix: bits of 8 and 16 bit tensors

---
 tf_encrypted/tensor/shared.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tf_encrypted/tensor/shared.py b/tf_encrypted/tensor/shared.py
index 9f68ef8..8881a54 100644
--- a/tf_encrypted/tensor/shared.py
+++ b/tf_encrypted/tensor/shared.py
@@ -16,7 +16,7 @@ def binarize(
         bitsize = bitsize or (tensor.dtype.size * 8)
 
         bit_indices_shape = [1] * len(tensor.shape) + [bitsize]
-        bit_indices = tf.range(bitsize, dtype=tensor.dtype)
+        bit_indices = tf.cast(tf.range(bitsize), tensor.dtype)
         bit_indices = tf.reshape(bit_indices, bit_indices_shape)
 
         val = tf.expand_dims(tensor, -1)
-- 
2.43.0


From c8511a0d0d96b8124a11b5de548f316f4f8322c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:26 +0000
Subject: [PATCH 46/95] fix: subtraction of a 100 bit tensor from a number

---
 tf_encrypted/tensor/int100.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tf_encrypted/tensor/int100.py b/tf_encrypted/tensor/int100.py
index 4d98cfc..1944022 100644
--- a/tf_encrypted/tensor/int100.py
+++ b/tf_encrypted/tensor/int100.py
@@ -553,7 +553,7 @@ def crt_factory(INT_TYPE, MODULI):  # pylint: disable=invalid-name
 
         def __rsub__(self, other):
             x, y = _lift(self, other)
-            return x.sub(y)
+            return y.sub(x)
 
         def __mul__(self, other):
             x, y = _lift(self, other)
-- 
2.43.0


From 846f645df696c486e5e33746738ba384617c7b45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:26 +0000
Subject: [PATCH 47/95] fix: assignment to boolean variables

---
 tf_encrypted/tensor/boolfactory.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/tf_encrypted/tensor/boolfactory.py b/tf_encrypted/tensor/boolfactory.py
index af47629..aa8da01 100644
--- a/tf_encrypted/tensor/boolfactory.py
+++ b/tf_encrypted/tensor/boolfactory.py
@@ -291,10 +291,10 @@ def bool_factory():
         def assign(self, value: Union[Tensor, np.ndarray]) -> None:
             if isinstance(value, Tensor):
                 self.variable.assign(value.value)
-            if isinstance(value, np.ndarray):
+            elif isinstance(value, np.ndarray):
                 self.variable.assign(value)
-
-            raise TypeError("Don't know how to handle {}".format(type(value)))
+            else:
+                raise TypeError("Don't know how to handle {}".format(type(value)))
 
         def read_value(self) -> Tensor:
             return Tensor(self.variable.read_value())
-- 
2.43.0


From 2048b94c63c391fd9cbf211b8efcd82870521133 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:26 +0000
Subject: [PATCH 48/95] fix: assignment to 100 bit variables

---
 tf_encrypted/tensor/int100.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/tf_encrypted/tensor/int100.py b/tf_encrypted/tensor/int100.py
index 1944022..42cef67 100644
--- a/tf_encrypted/tensor/int100.py
+++ b/tf_encrypted/tensor/int100.py
@@ -814,11 +814,13 @@ def crt_factory(INT_TYPE, MODULI):  # pylint: disable=invalid-name
             if isinstance(value, Tensor):
                 for (variable, vi) in zip(self.variables, value.backing):
                     variable.assign(vi)
-            if isinstance(value, np.ndarray):
-                for (variable, vi) in zip(self.variables, value):
+            elif isinstance(value, np.ndarray):
+                for (variable, vi) in zip(
+                    self.variables, self.factory._encode(value)
+                ):
                     variable.assign(vi)
-
-            raise TypeError("Don't know how to handle {}".format(type(value)))
+            else:
+                raise TypeError("Don't know how to handle {}".format(type(value)))
 
         def read_value(self) -> Tensor:
             backing = [var.read_value() for var in self.variables]
-- 
2.43.0


From 41f86b3d6998c0daf559064d06ce5c952567081f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:26 +0000
Subject: [PATCH 49/95] fix: 100 bit seeded sampling covers every residue

---
 tf_encrypted/tensor/int100.py | 23 +++++++++++------------
 1 file changed, 11 insertions(+), 12 deletions(-)

diff --git a/tf_encrypted/tensor/int100.py b/tf_encrypted/tensor/int100.py
index 42cef67..5483819 100644
--- a/tf_encrypted/tensor/int100.py
+++ b/tf_encrypted/tensor/int100.py
@@ -239,26 +239,25 @@ def crt_factory(INT_TYPE, MODULI):  # pylint: disable=invalid-name
                 shape = list(shape) + [len(MODULI)]
                 value = secure_random.seeded_random_uniform(
                     shape=shape,
-                    dtype=INT_TYPE,
-                    minval=0,
-                    maxval=mi,
+                    dtype=tf.int64,
+                    minval=tf.int64.min,
+                    maxval=tf.int64.max,
                     seed=seed,
                 )
-                backing = tf.split(value, len(MODULI), axis=-1)
-                backing = [tf.squeeze(b, axis=-1) for b in backing]
-                return Tensor(backing)
             else:
                 shape = list(shape) + [len(MODULI)]
                 value = tf.random.stateless_uniform(
                     shape=shape,
-                    dtype=INT_TYPE,
-                    minval=0,
-                    maxval=mi,
+                    dtype=tf.int64,
+                    minval=None,
+                    maxval=None,
                     seed=seed,
                 )
-                backing = tf.split(value, len(MODULI), axis=-1)
-                backing = [tf.squeeze(b, axis=-1) for b in backing]
-                return Tensor(backing)
+
+            # a single draw of words, reduced by each of the moduli
+            words = tf.unstack(value, axis=-1)
+            backing = [tf.cast(w % mi, INT_TYPE) for w, mi in zip(words, MODULI)]
+            return Tensor(backing)
 
         def sample_bounded(self, shape, bitlength: int):
 
-- 
2.43.0


From 324d5883766f1786d48c0c8a22d7b44b92c87c89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:58 +0000
Subject: [PATCH 50/95] fix: to_bigint of 100 bit tensors

---
 tf_encrypted/tensor/int100.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tf_encrypted/tensor/int100.py b/tf_encrypted/tensor/int100.py
index 5483819..8205d35 100644
--- a/tf_encrypted/tensor/int100.py
+++ b/tf_encrypted/tensor/int100.py
@@ -56,8 +56,8 @@ def crt_factory(INT_TYPE, MODULI):  # pylint: disable=invalid-name
         def crt_recombine_lagrange(x):
 
             with tf.name_scope("crt_recombine_lagrange"):
+                x = [np.asarray(xi).astype(object) for xi in x]
                 res = sum(xi * li for xi, li in zip(x, lambdas)) % MODULUS
-                res = res.astype(object)
                 return res
 
         return crt_recombine_lagrange
-- 
2.43.0


From 66bf804b54eebb9e24e5df7c2968038aec32ca8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:24:30 +0000
Subject: [PATCH 51/95] fix: compare 128 bit tensors to a tensor of one element

---
 operations/tf_i128/int128_kernels.cc | 3 ++-
 operations/tf_i128/int128_tensor.cc  | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/operations/tf_i128/int128_kernels.cc b/operations/tf_i128/int128_kernels.cc
index c9add3b..6c9d955 100644
--- a/operations/tf_i128/int128_kernels.cc
+++ b/operations/tf_i128/int128_kernels.cc
@@ -245,7 +245,8 @@ public:
         tf_i128::I128TensorView view1(op1);
         Tensor* output;
         //! Shape of view has no the N_LIMBS dimension.
-        TensorShape out_shape {op0.dims() > op1.dims() ? view0.shape() : view1.shape()};
+        TensorShape out_shape;
+        CHECK(binaryOpShape(out_shape, view0.shape(), view1.shape()).ok());
         OP_REQUIRES_OK(ctx, ctx->allocate_output(0, out_shape, &output));
         tf_i128::i128TensorEqual(*output, view0, view1);
     }
diff --git a/operations/tf_i128/int128_tensor.cc b/operations/tf_i128/int128_tensor.cc
index 2271d4c..7e3b3b2 100644
--- a/operations/tf_i128/int128_tensor.cc
+++ b/operations/tf_i128/int128_tensor.cc
@@ -819,7 +819,7 @@ bool i128TensorConvertBack(tf::Tensor& out, tf::Tensor const& in, tf::uint64 sca
 
 bool i128TensorEqualScalar(tf::Tensor& out, I128TensorView const& lhs, I128TensorView::Scalar const& rhs) {
     CHECK_EQ(out.dtype(), tf::DT_BOOL);
-    CHECK_EQ(out.shape(), lhs.shape());  // bool tensor do not contain the last size-2 dimension.
+    CHECK_EQ(out.NumElements(), lhs.numElements());
     const Scalar* op0 = lhs.data();
     const Scalar* end = op0 + lhs.numElements();
     bool* dst         = out.flat<bool>().data();
-- 
2.43.0


From 957e68f0eae2610f509921e0070ff9ae42783080 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:44 +0000
Subject: [PATCH 52/95] fix: writing a record reports files it cannot open or
 write

---
 operations/dataset/write_record.cc | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/operations/dataset/write_record.cc b/operations/dataset/write_record.cc
index 99abee5..b7bf884 100644
--- a/operations/dataset/write_record.cc
+++ b/operations/dataset/write_record.cc
@@ -26,20 +26,16 @@ public:
 
       std::unique_ptr<tensorflow::WritableFile> file;
       if(append){
-        tensorflow::Env::Default()->NewAppendableFile(filename, &file);
+        OP_REQUIRES_OK(ctx, tensorflow::Env::Default()->NewAppendableFile(filename, &file));
       }else{
-        tensorflow::Env::Default()->NewWritableFile(filename, &file);
+        OP_REQUIRES_OK(ctx, tensorflow::Env::Default()->NewWritableFile(filename, &file));
       }
       const RecordWriterOptions& options = RecordWriterOptions::CreateRecordWriterOptions("");
       auto writer = absl::make_unique<tensorflow::io::RecordWriter>(file.get(), options);
 
-      if(file == nullptr && writer == nullptr){
-        return;
-      }
-
-      writer->WriteRecord(StringPiece(record));
-      writer->Close();
-      file->Close();
+      OP_REQUIRES_OK(ctx, writer->WriteRecord(StringPiece(record)));
+      OP_REQUIRES_OK(ctx, writer->Close());
+      OP_REQUIRES_OK(ctx, file->Close());
     }
 };
 
-- 
2.43.0


From 0d606b4e3465af642e943b39240a9af5b15f47ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:44 +0000
Subject: [PATCH 53/95] fix: reading 128-bit shares leaves the caller's shape
 alone

---
 tf_encrypted/protocol/aby3/aby3.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tf_encrypted/protocol/aby3/aby3.py b/tf_encrypted/protocol/aby3/aby3.py
index e9806f6..f1b3745 100644
--- a/tf_encrypted/protocol/aby3/aby3.py
+++ b/tf_encrypted/protocol/aby3/aby3.py
@@ -4785,7 +4785,7 @@ def _read_(prot, filenames_prefix, file_batch, output_shape, buffer_num):
         filenames_prefix = [filenames_prefix]
 
     if prot.default_nbits == 128:
-        output_shape.append(2)
+        output_shape = list(output_shape) + [2]
 
     def decode(str_tensor):
         return tf.io.parse_tensor(str_tensor, out_type=tf.int64)
-- 
2.43.0


From b8af570dc16ba29f2ba7fc0ffcd1c205c0e1f1b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:41:30 +0000
Subject: [PATCH 54/95] fix: cached results are told apart by the contents of
 arrays

---
 tf_encrypted/protocol/protocol.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/tf_encrypted/protocol/protocol.py b/tf_encrypted/protocol/protocol.py
index aa820d7..bf552fb 100644
--- a/tf_encrypted/protocol/protocol.py
+++ b/tf_encrypted/protocol/protocol.py
@@ -6,6 +6,7 @@ from typing import Any
 from typing import Callable
 from typing import Optional
 
+import numpy as np
 import tensorflow as tf
 
 import tf_encrypted as tfe
@@ -81,6 +82,10 @@ def make_hashable(x):
         )
     elif isinstance(x, tf.TensorShape):
         return tuple(x.as_list())
+    elif isinstance(x, np.ndarray) and not x.dtype.hasobject:
+        return (x.shape, x.dtype.str, x.tobytes())
+    elif isinstance(x, tf.Tensor):
+        return x.ref()
     else:
         try:
             hash(x)
-- 
2.43.0


From 764938b10e2c39cce4c18bf06c80c43e3d8c92d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:41:30 +0000
Subject: [PATCH 55/95] fix: cached results belong to one protocol

---
 tf_encrypted/protocol/protocol.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tf_encrypted/protocol/protocol.py b/tf_encrypted/protocol/protocol.py
index bf552fb..3f83594 100644
--- a/tf_encrypted/protocol/protocol.py
+++ b/tf_encrypted/protocol/protocol.py
@@ -113,7 +113,7 @@ def memoize(func: Callable) -> Callable:
 
         hashable_args = make_hashable(args)
         hashable_kwargs = make_hashable(kwargs)
-        node_key = (func.__name__, hashable_args, hashable_kwargs)
+        node_key = (self, func.__name__, hashable_args, hashable_kwargs)
 
         cached_result = nodes.get(node_key, None)
         if cached_result is not None:
-- 
2.43.0


From eb55ac350d81bf4cd08390c5d172489162a7dc72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:48:13 +0000
Subject: [PATCH 56/95] fix: cached results are kept apart for every graph

---
 tf_encrypted/protocol/protocol.py | 31 ++++++++++++++++++++++++++++++-
 1 file changed, 30 insertions(+), 1 deletion(-)

diff --git a/tf_encrypted/protocol/protocol.py b/tf_encrypted/protocol/protocol.py
index 3f83594..e82c061 100644
--- a/tf_encrypted/protocol/protocol.py
+++ b/tf_encrypted/protocol/protocol.py
@@ -14,7 +14,36 @@ import tf_encrypted as tfe
 from ..config import get_config
 from ..tensor.factory import AbstractTensor
 
-nodes = dict()
+
+
+class NodeCache:
+    """
+    Results of earlier calls, kept apart for eager execution and for every graph
+    since the tensors of one graph cannot be used in another.
+    """
+
+    def __init__(self):
+        self.eager_nodes = dict()
+
+    def _nodes(self):
+        if tf.executing_eagerly():
+            return self.eager_nodes
+        graph = tf.compat.v1.get_default_graph()
+        if not hasattr(graph, "tfe_nodes"):
+            graph.tfe_nodes = dict()
+        return graph.tfe_nodes
+
+    def get(self, key, default=None):
+        return self._nodes().get(key, default)
+
+    def __setitem__(self, key, value):
+        self._nodes()[key] = value
+
+    def clear(self):
+        self._nodes().clear()
+
+
+nodes = NodeCache()
 
 
 class Protocol(ABC):
-- 
2.43.0


From 4d386a3a06590aff688869764e9415192304e811 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:06:22 +0000
Subject: [PATCH 57/95] fix: entering a protocol that is already entered

---
 tf_encrypted/protocol/protocol.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/tf_encrypted/protocol/protocol.py b/tf_encrypted/protocol/protocol.py
index e82c061..674d2c7 100644
--- a/tf_encrypted/protocol/protocol.py
+++ b/tf_encrypted/protocol/protocol.py
@@ -56,7 +56,9 @@ class Protocol(ABC):
     """
 
     def __enter__(self) -> "Protocol":
-        self.last_protocol = tfe.get_protocol()
+        if not hasattr(self, "last_protocols"):
+            self.last_protocols = []
+        self.last_protocols.append(tfe.get_protocol())
         tfe.set_protocol(self)
         return self
 
@@ -66,7 +68,7 @@ class Protocol(ABC):
         exception_value: Optional[Exception],
         traceback: Optional[TracebackType],
     ) -> Optional[bool]:
-        tfe.set_protocol(self.last_protocol)
+        tfe.set_protocol(self.last_protocols.pop())
 
     def reset(self):
         pass
-- 
2.43.0


From 13860e8875b1ecee8d48bb80adcf606ea7d0cf35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:43 +0000
Subject: [PATCH 58/95] fix: queues without a shared name are separate queues

---
 tf_encrypted/queue/fifo.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tf_encrypted/queue/fifo.py b/tf_encrypted/queue/fifo.py
index d93e828..cb20fc6 100644
--- a/tf_encrypted/queue/fifo.py
+++ b/tf_encrypted/queue/fifo.py
@@ -5,6 +5,7 @@ FIFO queue data structure.
 from __future__ import absolute_import
 
 import abc
+import uuid
 
 import tensorflow as tf
 from tensorflow.python.framework import ops
@@ -58,6 +59,9 @@ class TFFIFOQueue(tf.queue.QueueBase):
             the given name across multiple sessions.
           name: Optional name for the queue operation.
         """
+        if shared_name is None:
+            # nameless queues would all be one and the same in eager execution
+            shared_name = str(uuid.uuid4())
         dtypes = _as_type_list(dtypes)
         shapes = _as_shape_list(shapes, dtypes)
         names = _as_name_list(names, dtypes)
-- 
2.43.0


From 623d5b10dcc87c1391baae78238c38468714db74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:46 +0000
Subject: [PATCH 59/95] fix: maximum along negative axes and along axes of
 length one

---
 tf_encrypted/protocol/aby3/aby3.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/tf_encrypted/protocol/aby3/aby3.py b/tf_encrypted/protocol/aby3/aby3.py
index f1b3745..4fc9971 100644
--- a/tf_encrypted/protocol/aby3/aby3.py
+++ b/tf_encrypted/protocol/aby3/aby3.py
@@ -5171,9 +5171,18 @@ def _reduce_max_with_argmax_private(
 
             return maximum, argmax
 
+        if axis < 0:
+            axis += len(x.shape)
         n = int(x.shape[axis])
         tensors = prot.split(x, n, axis=axis)
-        if output_style == "onehot":
+        if output_style == "onehot" and n == 1:
+            # no comparison turns the public index into a private one
+            indices = [
+                _ones_private(
+                    prot, x.shape, False, ShareType.BOOLEAN, factories[tf.bool]
+                )
+            ]
+        elif output_style == "onehot":
             idx_init_shape = [1] * axis + [n] + [1] * (len(x.shape) - axis - 1)
             tile_shape = (
                 x.shape[:axis] + [1] + x.shape[(axis + 1) :]
-- 
2.43.0


From 7d2219b7da6aa575b7a6c8eed0618dc742e6abd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:46 +0000
Subject: [PATCH 60/95] fix: output shapes of convolutional layers

---
 tf_encrypted/keras/layers/convolutional.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/tf_encrypted/keras/layers/convolutional.py b/tf_encrypted/keras/layers/convolutional.py
index 1707f43..2935d56 100644
--- a/tf_encrypted/keras/layers/convolutional.py
+++ b/tf_encrypted/keras/layers/convolutional.py
@@ -302,10 +302,10 @@ class Conv2D(Layer):
 
         if self.padding == "SAME":
             h_out = int(np.ceil(float(h_x) / float(self.strides[0])))
-            w_out = int(np.ceil(float(w_x) / float(self.strides[0])))
+            w_out = int(np.ceil(float(w_x) / float(self.strides[1])))
         if self.padding == "VALID":
             h_out = int(np.ceil(float(h_x - h_filter + 1) / float(self.strides[0])))
-            w_out = int(np.ceil(float(w_x - w_filter + 1) / float(self.strides[0])))
+            w_out = int(np.ceil(float(w_x - w_filter + 1) / float(self.strides[1])))
 
         if self.data_format == "channels_first":
             return [n_x, n_filters, h_out, w_out]
@@ -568,7 +568,8 @@ class DepthwiseConv2D(Conv2D):
 
     def compute_output_shape(self, input_shape):
         """Compute output_shape for the layer."""
-        h_filter, w_filter, _, n_filters = self.kernel_shape
+        h_filter, w_filter, channels, multiplier = self.kernel_shape
+        n_filters = channels * multiplier
 
         if self.data_format == "channels_first":
             n_x, _, h_x, w_x = input_shape
@@ -577,12 +578,15 @@ class DepthwiseConv2D(Conv2D):
 
         if self.padding == "SAME":
             h_out = int(np.ceil(float(h_x) / float(self.strides[0])))
-            w_out = int(np.ceil(float(w_x) / float(self.strides[0])))
+            w_out = int(np.ceil(float(w_x) / float(self.strides[1])))
         if self.padding == "VALID":
             h_out = int(np.ceil(float(h_x - h_filter + 1) / float(self.strides[0])))
-            w_out = int(np.ceil(float(w_x - w_filter + 1) / float(self.strides[0])))
+            w_out = int(np.ceil(float(w_x - w_filter + 1) / float(self.strides[1])))
 
-        return [n_x, n_filters, h_out, w_out]
+        if self.data_format == "channels_first":
+            return [n_x, n_filters, h_out, w_out]
+        else:
+            return [n_x, h_out, w_out, n_filters]
 
     def get_mask(self, in_channels):
         mask = np.zeros(
-- 
2.43.0


From 91c8471893245bab9542232e40b691f91230dc97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:46 +0000
Subject: [PATCH 61/95] fix: strided convolution layers go backward for every
 size

---
 tf_encrypted/keras/layers/convolutional.py | 15 +++++++++++++--
 tf_encrypted/protocol/aby3/aby3.py         |  9 ++++++---
 2 files changed, 19 insertions(+), 5 deletions(-)

diff --git a/tf_encrypted/keras/layers/convolutional.py b/tf_encrypted/keras/layers/convolutional.py
index 2935d56..2293c8d 100644
--- a/tf_encrypted/keras/layers/convolutional.py
+++ b/tf_encrypted/keras/layers/convolutional.py
@@ -211,7 +211,7 @@ class Conv2D(Layer):
         else:
             d_y = tfe.transpose(d_y, perm=[1, 2, 0, 3])
 
-        inner_padded_d_y = tfe.expand(d_y, self.strides[0])
+        inner_padded_d_y = tfe.expand(d_y, self.strides)
         padded_d_y = tfe.pad(
             inner_padded_d_y,
             [
@@ -230,9 +230,17 @@ class Conv2D(Layer):
         # https://medium.com/@mayank.utexas/backpropagation-for-convolution-with-strides-8137e4fc2710
         d_x = tfe.conv2d(padded_d_y, flipped_kernel, [1, 1], "VALID")
 
+        # The strides may leave out the last rows and columns
+        [[pad_top, pad_bottom], [pad_left, pad_right]] = (
+            self.pad_size(h_x, w_x) if self.padding == "SAME" else [[0, 0], [0, 0]]
+        )
+        h_rest = h_x + pad_top + pad_bottom - int(d_x.shape[2])
+        w_rest = w_x + pad_left + pad_right - int(d_x.shape[3])
+        if h_rest > 0 or w_rest > 0:
+            d_x = tfe.pad(d_x, [[0, 0], [0, 0], [0, h_rest], [0, w_rest]])
+
         # Remove padding, if any
         if self.padding == "SAME":
-            [[pad_top, pad_bottom], [pad_left, pad_right]] = self.pad_size(h_x, w_x)
             d_x = d_x[
                 :,
                 :,
@@ -246,6 +254,9 @@ class Conv2D(Layer):
         if self.data_format != "channels_first":
             d_x = tfe.transpose(d_x, perm=[0, 2, 3, 1])
 
+        if h_rest > 0 or w_rest > 0:
+            x = x[:, :, : (x.shape[2] - h_rest), : (x.shape[3] - w_rest)]
+
         # Convert to CNHW
         x = tfe.transpose(x, perm=[1, 0, 2, 3])
         # Back prop for dw:
diff --git a/tf_encrypted/protocol/aby3/aby3.py b/tf_encrypted/protocol/aby3/aby3.py
index 4fc9971..1ffb68f 100644
--- a/tf_encrypted/protocol/aby3/aby3.py
+++ b/tf_encrypted/protocol/aby3/aby3.py
@@ -5485,12 +5485,15 @@ def _expand_private(prot, x, stride):
 
     h_in = x.shape[0]
     w_in = x.shape[1]
-    h_out = (h_in - 1) * stride + 1
-    w_out = (w_in - 1) * stride + 1
+    stride_h, stride_w = (stride, stride) if isinstance(stride, int) else stride
+    h_out = (h_in - 1) * stride_h + 1
+    w_out = (w_in - 1) * stride_w + 1
     shape_out = [h_out, w_out] + x.shape[2:]
 
     I, J = tf.meshgrid(
-        tf.range(h_out, delta=stride), tf.range(w_out, delta=stride), indexing="ij"
+        tf.range(h_out, delta=stride_h),
+        tf.range(w_out, delta=stride_w),
+        indexing="ij",
     )
     indices = tf.stack([I, J], axis=2)
 
-- 
2.43.0


From 4ef2e75943e4960cb90961c6a6bb1583c8e3352e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:46 +0000
Subject: [PATCH 62/95] fix: flattening channels first goes backward in the
 same order

---
 tf_encrypted/keras/layers/flatten.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/tf_encrypted/keras/layers/flatten.py b/tf_encrypted/keras/layers/flatten.py
index f9660a5..d032ef5 100644
--- a/tf_encrypted/keras/layers/flatten.py
+++ b/tf_encrypted/keras/layers/flatten.py
@@ -54,7 +54,18 @@ class Flatten(Layer):
 
         input_shape = x.shape.as_list()
 
-        d_x = tfe.reshape(d_y, input_shape)
+        rank = len(input_shape)
+
+        if self.data_format == "channels_first" and rank > 1:
+            # undo the transposition done by `call`
+            d_x = tfe.reshape(
+                d_y, [input_shape[0]] + input_shape[2:] + [input_shape[1]]
+            )
+            permutation = [0, rank - 1]
+            permutation.extend(i for i in range(1, rank - 1))
+            d_x = tfe.transpose(d_x, perm=permutation)
+        else:
+            d_x = tfe.reshape(d_y, input_shape)
         return grad_weights, d_x
 
     def compute_output_shape(self, input_shape):
-- 
2.43.0


From 91adea4c55cab48d2f8ef271e294f0cd8763be86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:46 +0000
Subject: [PATCH 63/95] fix: global pooling that keeps dimensions

---
 tf_encrypted/keras/layers/pooling.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/tf_encrypted/keras/layers/pooling.py b/tf_encrypted/keras/layers/pooling.py
index 81b6c2f..e027da0 100644
--- a/tf_encrypted/keras/layers/pooling.py
+++ b/tf_encrypted/keras/layers/pooling.py
@@ -378,6 +378,8 @@ class GlobalAveragePooling2D(GlobalPooling2D):
         _d_y = d_y * self.scalar
         if not self.keepdims:
             _d_y = tfe.expand_dims(tfe.expand_dims(_d_y, axis=2), axis=3)
+        elif self.data_format == "channels_last":
+            _d_y = tfe.transpose(_d_y, perm=[0, 3, 1, 2])
 
         d_x = tfe.tile(_d_y, multiples=[1, 1, h_x, w_x])
 
@@ -427,12 +429,19 @@ class GlobalMaxPooling2D(GlobalPooling2D):
 
         self._layer_output = (outputs, outputs_argmax)
 
+        if self.keepdims:
+            output_shape = self.compute_output_shape(self._layer_input.shape)
+            outputs = outputs.reshape(output_shape)
+
         return outputs
 
     def backward(self, d_y):
         x = self._layer_input
         y, y_arg = self._layer_output
 
+        if self.keepdims:
+            d_y = tfe.reshape(d_y, y.shape)
+
         if self.data_format == "channels_last":
             batch, h_x, w_x, channels = x.shape
         else:
-- 
2.43.0


From 61ec13ffae58d7e79a6fea692d9a18dc20bc5a05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:46 +0000
Subject: [PATCH 64/95] fix: setting weights leaves the list of the caller
 alone

---
 tf_encrypted/keras/engine/base_layer.py    | 1 +
 tf_encrypted/keras/layers/convolutional.py | 1 +
 tf_encrypted/keras/layers/normalization.py | 1 +
 3 files changed, 3 insertions(+)

diff --git a/tf_encrypted/keras/engine/base_layer.py b/tf_encrypted/keras/engine/base_layer.py
index c8f6551..69bf725 100644
--- a/tf_encrypted/keras/engine/base_layer.py
+++ b/tf_encrypted/keras/engine/base_layer.py
@@ -130,6 +130,7 @@ class Layer(ABC):
         """
         weights_types = (np.ndarray, TFEPrivateTensor)
         assert isinstance(weights[0], weights_types), type(weights[0])
+        weights = list(weights)
 
         if isinstance(weights[0], np.ndarray):
             for index, weight in enumerate(weights):
diff --git a/tf_encrypted/keras/layers/convolutional.py b/tf_encrypted/keras/layers/convolutional.py
index 2293c8d..7797c6d 100644
--- a/tf_encrypted/keras/layers/convolutional.py
+++ b/tf_encrypted/keras/layers/convolutional.py
@@ -625,6 +625,7 @@ class DepthwiseConv2D(Conv2D):
 
         weights_types = (np.ndarray, TFEPrivateTensor)
         assert isinstance(weights[0], weights_types), type(weights[0])
+        weights = list(weights)
 
         # Assign new keras weights to existing weights defined by
         # default when tfe layer was instantiated
diff --git a/tf_encrypted/keras/layers/normalization.py b/tf_encrypted/keras/layers/normalization.py
index 064deb0..48a144e 100644
--- a/tf_encrypted/keras/layers/normalization.py
+++ b/tf_encrypted/keras/layers/normalization.py
@@ -226,6 +226,7 @@ class BatchNormalization(Layer):
 
         weights_types = (np.ndarray, TFEPublicTensor)
         assert isinstance(weights[0], weights_types), type(weights[0])
+        weights = list(weights)
         if isinstance(weights[0], np.ndarray):
             for index, weight in enumerate(weights):
                 weights[index] = tfe.define_public_variable(weight)
-- 
2.43.0


From b84a8d61945baf05f24fc439059d640e1605fa12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:25 +0000
Subject: [PATCH 65/95] fix: every epoch of fit goes over the data

---
 tf_encrypted/keras/models/base_model.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/tf_encrypted/keras/models/base_model.py b/tf_encrypted/keras/models/base_model.py
index c548f8f..13ba6b2 100644
--- a/tf_encrypted/keras/models/base_model.py
+++ b/tf_encrypted/keras/models/base_model.py
@@ -109,10 +109,10 @@ class BaseModel(Layer):
                 the batch size, or 1 if that cannot be determined.
         """
 
-        data_iter = data_wrap(x, y, batch_size)
         if self.train_function is None:
             self.train_function = self.make_train_function()
         for e in range(epochs):
+            data_iter = data_wrap(x, y, batch_size)
             print("Epoch {}/{}".format(e + 1, epochs))
             progbar = utils.Progbar(steps_per_epoch, verbose=verbose)
             for index, (input_x, input_y) in enumerate(data_iter):
@@ -205,6 +205,8 @@ class BaseModel(Layer):
 
 
 def data_wrap(x, y=None, batch_size=32):
+    if batch_size is None:
+        batch_size = 32
     if isinstance(x, Iterator):
         return x
     elif isinstance(x, TFEPrivateTensor) and isinstance(y, TFEPrivateTensor):
@@ -212,7 +214,7 @@ def data_wrap(x, y=None, batch_size=32):
         def iter_over_data(x_data, y_data, batch_size):
             start_index = 0
             end_index = batch_size
-            while start_index < x_data[0].shape[0]:
+            while start_index < x_data.shape[0]:
                 yield (x_data[start_index:end_index], y_data[start_index:end_index])
                 start_index += batch_size
                 end_index += batch_size
-- 
2.43.0


From 0ebb3a63e4502af603d178c7183f68ed28af8ce8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:25 +0000
Subject: [PATCH 66/95] fix: predict opens its result exactly when asked to

---
 tf_encrypted/keras/models/base_model.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/tf_encrypted/keras/models/base_model.py b/tf_encrypted/keras/models/base_model.py
index 13ba6b2..ace104e 100644
--- a/tf_encrypted/keras/models/base_model.py
+++ b/tf_encrypted/keras/models/base_model.py
@@ -30,7 +30,7 @@ class BaseModel(Layer):
         self._loss = None
         self._optimizer = None
         self.train_function = None
-        self.predict_function = None
+        self.predict_functions = {}
         self.test_function = None
 
     def __call__(self, inputs, *args, **kargs):
@@ -139,11 +139,12 @@ class BaseModel(Layer):
     def predict(self, x, batch_size=32, reveal=True):
         y_preds = []
         data_iter = data_wrap(x, None, batch_size)
-        if self.predict_function is None:
-            self.predict_function = self.make_predict_function(reveal)
+        if reveal not in self.predict_functions:
+            self.predict_functions[reveal] = self.make_predict_function(reveal)
+        predict_function = self.predict_functions[reveal]
 
         for input_x in data_iter:
-            y_pred = self.predict_function(input_x)
+            y_pred = predict_function(input_x)
             y_preds.append(y_pred)
 
         if reveal:
-- 
2.43.0


From c44bac58bba4955f4834bda539f2c68adbd6d0ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:25 +0000
Subject: [PATCH 67/95] fix: name of models

---
 tf_encrypted/keras/models/base_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tf_encrypted/keras/models/base_model.py b/tf_encrypted/keras/models/base_model.py
index ace104e..105e178 100644
--- a/tf_encrypted/keras/models/base_model.py
+++ b/tf_encrypted/keras/models/base_model.py
@@ -25,7 +25,7 @@ class BaseModel(Layer):
     """
 
     def __init__(self, name=None):
-        super(BaseModel, self).__init__(name)
+        super(BaseModel, self).__init__(name=name)
 
         self._loss = None
         self._optimizer = None
-- 
2.43.0


From 22226c9247d8f9cabf1d07c71b8c2e58a3598788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:25 +0000
Subject: [PATCH 68/95] fix: compiling a model again takes effect

---
 tf_encrypted/keras/models/sequential.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tf_encrypted/keras/models/sequential.py b/tf_encrypted/keras/models/sequential.py
index 0cae08e..40b9b5a 100644
--- a/tf_encrypted/keras/models/sequential.py
+++ b/tf_encrypted/keras/models/sequential.py
@@ -138,6 +138,7 @@ class Sequential(BaseModel):
         """
         self._optimizer = optimizers.get(optimizer)
         self._loss = loss
+        self.train_function = None
         assert self._optimizer is not None, "An optimizer must be specified."
         assert self._loss is not None, "A loss must be specified."
 
-- 
2.43.0


From f34e1b47de1034cab56a89e869de42a360cca5d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:14 +0000
Subject: [PATCH 69/95] fix: padding of converted convolutions

---
 tf_encrypted/convert/nodes.py | 39 ++++++++++++++++++++++++++++-------
 1 file changed, 32 insertions(+), 7 deletions(-)

diff --git a/tf_encrypted/convert/nodes.py b/tf_encrypted/convert/nodes.py
index d558de0..d0ccd5c 100644
--- a/tf_encrypted/convert/nodes.py
+++ b/tf_encrypted/convert/nodes.py
@@ -83,6 +83,20 @@ class BaseNode(ABC):
         pass
 
 
+def _dilated(attributes):
+    return "dilations" in attributes and any(
+        dilation != 1 for dilation in attributes["dilations"].ints
+    )
+
+
+def _check_auto_pad(attributes):
+    """Only explicit paddings are supported."""
+    if "auto_pad" in attributes:
+        auto_pad = attributes["auto_pad"].s.decode()
+        if auto_pad not in ("", "NOTSET", "VALID"):
+            raise NotImplementedError("auto_pad {} is not supported".format(auto_pad))
+
+
 class AddNode(BaseNode):
     def __init__(
         self, node: NodeProto, inputs: List[tf.Tensor], model_provider: Player
@@ -289,14 +303,25 @@ class Conv2dNode(BaseNode):
         for attr in node.attribute:
             attributes[attr.name] = attr
 
-        strides = list(attributes["strides"].ints)
-        group = attributes["group"].i
-        try:
+        strides = [1, 1]
+        if "strides" in attributes:
+            strides = list(attributes["strides"].ints)
+        group = 1
+        if "group" in attributes:
+            group = attributes["group"].i
+        if _dilated(attributes):
+            raise NotImplementedError("Dilated convolutions are not supported")
+        if group != 1 and int(kernel.shape[2]) != 1:
+            raise NotImplementedError(
+                "Grouped convolutions other than depthwise ones are not supported"
+            )
+        _check_auto_pad(attributes)
+        # top, left, bottom, right
+        self.padding = None
+        if "pads" in attributes:
             self.padding = list(attributes["pads"].ints)
             padded_shape[2] += self.padding[0] + self.padding[2]
             padded_shape[3] += self.padding[1] + self.padding[3]
-        except KeyError:
-            self.padding = None
 
         if group == 1:
             self.layer = Conv2D(
@@ -329,7 +354,7 @@ class Conv2dNode(BaseNode):
                 [
                     [0, 0],
                     [0, 0],
-                    [self.padding[2], self.padding[0]],
+                    [self.padding[0], self.padding[2]],
                     [self.padding[1], self.padding[3]],
                 ],
             )
@@ -343,7 +368,7 @@ class Conv2dNode(BaseNode):
             d_y = d_y[
                 :,
                 :,
-                self.padding[2] : dy_shape[2] - self.padding[0],
+                self.padding[0] : dy_shape[2] - self.padding[2],
                 self.padding[1] : dy_shape[3] - self.padding[3],
             ]
         return grad_weights, [d_y]
-- 
2.43.0


From d60bb64c430bed975731340970e19f1366a486a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:14 +0000
Subject: [PATCH 70/95] fix: epsilon of converted batch normalizations

---
 tf_encrypted/convert/nodes.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/tf_encrypted/convert/nodes.py b/tf_encrypted/convert/nodes.py
index d0ccd5c..8f82ca5 100644
--- a/tf_encrypted/convert/nodes.py
+++ b/tf_encrypted/convert/nodes.py
@@ -382,7 +382,10 @@ class BatchnormalizationNode(BaseNode):
         assert isinstance(inputs[0], list), "input shape must be a list"
         self._input_shapes.append(inputs[0])
 
-        epsilon = float(node.attribute[0].f)
+        epsilon = 1e-5
+        for attr in node.attribute:
+            if attr.name == "epsilon":
+                epsilon = float(attr.f)
         assert isinstance(inputs[1], tf.Tensor), "gamma must be a tensor"
         gamma = tf.keras.initializers.Constant(inputs[1])
         assert isinstance(inputs[2], tf.Tensor), "beta must be a tensor"
-- 
2.43.0


From a48c0bda16c562dae6f6bfa2fe27861e47b13388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:14 +0000
Subject: [PATCH 71/95] fix: attributes of converted Gemm

---
 tf_encrypted/convert/nodes.py | 36 +++++++++++++++++++++++------------
 1 file changed, 24 insertions(+), 12 deletions(-)

diff --git a/tf_encrypted/convert/nodes.py b/tf_encrypted/convert/nodes.py
index 8f82ca5..86d0cd6 100644
--- a/tf_encrypted/convert/nodes.py
+++ b/tf_encrypted/convert/nodes.py
@@ -240,23 +240,35 @@ class GemmNode(BaseNode):
 
         assert isinstance(inputs[1], tf.Tensor), "kernel must be a tensor"
         kernel = tfe.define_private_input(model_provider, lambda: inputs[1])
-        assert isinstance(inputs[2], tf.Tensor), "bias must be a tensor"
-        bias = tfe.define_private_input(model_provider, lambda: inputs[2])
-        if node.attribute[1].i:
+
+        attributes = {}
+        for attr in node.attribute:
+            attributes[attr.name] = attr
+
+        if "transB" in attributes and attributes["transB"].i:
             kernel = kernel.transpose()
+        if "alpha" in attributes and attributes["alpha"].f != 1:
+            kernel = kernel * attributes["alpha"].f
         weights = []
         weights.append(kernel)
-        weights.append(bias)
+        use_bias = len(inputs) == 3
+        if use_bias:
+            assert isinstance(inputs[2], tf.Tensor), "bias must be a tensor"
+            value = inputs[2]
+            if "beta" in attributes:
+                value = value * attributes["beta"].f
+            value = tf.broadcast_to(tf.reshape(value, [-1]), [int(kernel.shape[1])])
+            bias = tfe.define_private_input(model_provider, lambda: value)
+            weights.append(bias)
 
-        self.transpose_x = False
-        if node.attribute[0].i:
-            self.transpose_x = True
+        self.transpose_x = "transA" in attributes and bool(attributes["transA"].i)
 
-        self.layer = Dense(kernel.shape[1], use_bias=True)
-        self.layer.build(self._input_shapes[0])
-        self._output_shapes.append(
-            self.layer.compute_output_shape(self._input_shapes[0])
-        )
+        x_shape = self._input_shapes[0]
+        if self.transpose_x:
+            x_shape = [x_shape[1], kernel.shape[0]]
+        self.layer = Dense(kernel.shape[1], use_bias=use_bias)
+        self.layer.build(x_shape)
+        self._output_shapes.append(self.layer.compute_output_shape(x_shape))
         self.layer.set_weights(weights)
         self._weights = self.layer.weights
 
-- 
2.43.0


From 902157ec387cea66ac543fd9dbb25f7c4442018d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:14 +0000
Subject: [PATCH 72/95] fix: padding of converted pooling layers

---
 tf_encrypted/convert/nodes.py | 98 +++++++++++++++++++++++++++++------
 1 file changed, 82 insertions(+), 16 deletions(-)

diff --git a/tf_encrypted/convert/nodes.py b/tf_encrypted/convert/nodes.py
index 86d0cd6..8704c3d 100644
--- a/tf_encrypted/convert/nodes.py
+++ b/tf_encrypted/convert/nodes.py
@@ -97,6 +97,46 @@ def _check_auto_pad(attributes):
             raise NotImplementedError("auto_pad {} is not supported".format(auto_pad))
 
 
+def _pool_attributes(attributes):
+    """Shape of the window, strides, and padding (top, left, bottom, right) or None"""
+    _check_auto_pad(attributes)
+    if "ceil_mode" in attributes and attributes["ceil_mode"].i:
+        raise NotImplementedError("ceil_mode is not supported")
+    if _dilated(attributes):
+        raise NotImplementedError("Dilated pooling is not supported")
+    pool_shape = list(attributes["kernel_shape"].ints)
+    strides = [1, 1]
+    if "strides" in attributes:
+        strides = list(attributes["strides"].ints)
+    padding = None
+    if "pads" in attributes and any(attributes["pads"].ints):
+        padding = list(attributes["pads"].ints)
+    return pool_shape, strides, padding
+
+
+def _padded_shape(shape, padding):
+    shape = deepcopy(shape)
+    if padding is not None:
+        shape[2] += padding[0] + padding[2]
+        shape[3] += padding[1] + padding[3]
+    return shape
+
+
+def _pad_images(x, padding):
+    if padding is None:
+        return x
+    return tfe.pad(
+        x, [[0, 0], [0, 0], [padding[0], padding[2]], [padding[1], padding[3]]]
+    )
+
+
+def _unpad_images(x, padding):
+    if padding is None:
+        return x
+    _, _, h, w = x.shape
+    return x[:, :, padding[0] : h - padding[2], padding[1] : w - padding[3]]
+
+
 class AddNode(BaseNode):
     def __init__(
         self, node: NodeProto, inputs: List[tf.Tensor], model_provider: Player
@@ -441,21 +481,43 @@ class AvgpoolNode(BaseNode):
         for attr in node.attribute:
             attributes[attr.name] = attr
 
-        pool_shape = attributes["kernel_shape"].ints
-        strides = attributes["strides"].ints
+        pool_shape, strides, self.padding = _pool_attributes(attributes)
+        padded_shape = _padded_shape(inputs[0], self.padding)
 
         self.layer = AveragePooling2D(pool_shape, strides, data_format="channels_first")
-        self.layer.build(self._input_shapes[0])
-        self._output_shapes.append(
-            self.layer.compute_output_shape(self._input_shapes[0])
+        self.layer.build(padded_shape)
+        self._output_shapes.append(self.layer.compute_output_shape(padded_shape))
+
+        # windows average over what lies inside the unpadded input only
+        self.correction = None
+        include_pad = (
+            "count_include_pad" in attributes and attributes["count_include_pad"].i
         )
+        if self.padding is not None and not include_pad:
+            counts = []
+            for i in (0, 1):
+                begin = np.arange(self._output_shapes[0][i + 2]) * strides[i]
+                end = begin + pool_shape[i]
+                low = self.padding[i]
+                high = low + inputs[0][i + 2]
+                counts.append(np.minimum(end, high) - np.maximum(begin, low))
+            counts = counts[0][:, np.newaxis] * counts[1][np.newaxis, :]
+            self.correction = tfe.define_public_variable(
+                (pool_shape[0] * pool_shape[1] / counts)[np.newaxis, np.newaxis]
+            )
 
     def forward(self, x):
-        return [self.layer.call(x[0])]
+        y = self.layer.call(_pad_images(x[0], self.padding))
+        if self.correction is not None:
+            y = tfe.mul(y, self.correction.read_value())
+        return [y]
 
     def backward(self, d_y):
-        grad_weights, d_y = self.layer.backward(d_y[0])
-        return grad_weights, [d_y]
+        d_y = d_y[0]
+        if self.correction is not None:
+            d_y = tfe.mul(d_y, self.correction.read_value())
+        grad_weights, d_y = self.layer.backward(d_y)
+        return grad_weights, [_unpad_images(d_y, self.padding)]
 
 
 class GlobalAvgpoolNode(BaseNode):
@@ -576,21 +638,25 @@ class MaxPoolNode(BaseNode):
         for attr in node.attribute:
             attributes[attr.name] = attr
 
-        pool_shape = attributes["kernel_shape"].ints
-        strides = attributes["strides"].ints
+        pool_shape, strides, self.padding = _pool_attributes(attributes)
+        padded_shape = _padded_shape(inputs[0], self.padding)
 
         self.layer = MaxPooling2D(pool_shape, strides, "VALID", "channels_first")
-        self.layer.build(self._input_shapes[0])
-        self._output_shapes.append(
-            self.layer.compute_output_shape(self._input_shapes[0])
-        )
+        self.layer.build(padded_shape)
+        self._output_shapes.append(self.layer.compute_output_shape(padded_shape))
 
     def forward(self, x):
-        return [self.layer.call(x[0])]
+        x = x[0]
+        if self.padding is None:
+            return [self.layer.call(x)]
+        # the padding must never be the maximum: lift all values above its zeros
+        integral = tfe.get_protocol().fixedpoint_config.precision_integral
+        lift = 2.0 ** (integral - 2)
+        return [self.layer.call(_pad_images(x + lift, self.padding)) - lift]
 
     def backward(self, d_y):
         grad_weights, d_y = self.layer.backward(d_y[0])
-        return grad_weights, [d_y]
+        return grad_weights, [_unpad_images(d_y, self.padding)]
 
 
 class GlobalMaxPoolNode(BaseNode):
-- 
2.43.0


From b8c73e4a892b4c7b4b5d29ea8d2e92089b1338f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:14 +0000
Subject: [PATCH 73/95] fix: axes of converted reductions

---
 tf_encrypted/convert/nodes.py | 59 +++++++++++++++--------------------
 1 file changed, 25 insertions(+), 34 deletions(-)

diff --git a/tf_encrypted/convert/nodes.py b/tf_encrypted/convert/nodes.py
index 8704c3d..fdaa9ca 100644
--- a/tf_encrypted/convert/nodes.py
+++ b/tf_encrypted/convert/nodes.py
@@ -137,6 +137,29 @@ def _unpad_images(x, padding):
     return x[:, :, padding[0] : h - padding[2], padding[1] : w - padding[3]]
 
 
+def _global_pool_attributes(node, inputs):
+    """Data format of the images a reduction pools over, and whether it keeps dims"""
+    attributes = {}
+    for attr in node.attribute:
+        attributes[attr.name] = attr
+    keepdims = "keepdims" not in attributes or attributes["keepdims"].i == 1
+    rank = len(inputs[0])
+    if node.op_type.startswith("Global"):
+        axes = [2, 3]
+    elif "axes" in attributes:
+        axes = list(attributes["axes"].ints)
+    elif len(inputs) == 2:
+        axes = [int(a) for a in inputs[1].numpy()]
+    else:
+        axes = range(rank)
+    axes = sorted(a % rank for a in axes)
+    if rank == 4 and axes == [2, 3]:
+        return "channels_first", keepdims
+    if rank == 4 and axes == [1, 2]:
+        return "channels_last", keepdims
+    raise NotImplementedError("Reductions are only supported over images")
+
+
 class AddNode(BaseNode):
     def __init__(
         self, node: NodeProto, inputs: List[tf.Tensor], model_provider: Player
@@ -528,23 +551,7 @@ class GlobalAvgpoolNode(BaseNode):
         assert isinstance(inputs[0], list), "input shape must be a list"
         self._input_shapes.append(inputs[0])
 
-        data_format = "channels_first"
-        keepdims = True
-
-        try:
-            attributes = {}
-            for attr in node.attribute:
-                attributes[attr.name] = attr
-
-            axes = attributes["axes"].ints
-            keepdims = attributes["keepdims"].i == 1
-
-            if axes[0] == 1 and axes[1] == 2:
-                data_format = "channels_last"
-            else:
-                data_format = "channels_first"
-        except:  # noqa:E722
-            pass
+        data_format, keepdims = _global_pool_attributes(node, inputs)
 
         self.layer = GlobalAveragePooling2D(data_format=data_format, keepdims=keepdims)
         self.layer.build(self._input_shapes[0])
@@ -667,23 +674,7 @@ class GlobalMaxPoolNode(BaseNode):
         assert isinstance(inputs[0], list), "input shape must be a list"
         self._input_shapes.append(inputs[0])
 
-        data_format = "channels_first"
-        keepdims = False
-
-        try:
-            attributes = {}
-            for attr in node.attribute:
-                attributes[attr.name] = attr
-
-            axes = attributes["axes"].ints
-            keepdims = attributes["keepdims"].i == 1
-
-            if axes[0] == 1 and axes[1] == 2:
-                data_format = "channels_last"
-            else:
-                data_format = "channels_first"
-        except:  # noqa:E722
-            pass
+        data_format, keepdims = _global_pool_attributes(node, inputs)
 
         self.layer = GlobalMaxPooling2D(data_format=data_format, keepdims=keepdims)
         self.layer.build(self._input_shapes[0])
-- 
2.43.0


From 4186f57451d2d4536f85e14972cfa1f5eb90cb7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:14 +0000
Subject: [PATCH 74/95] fix: axis of converted softmax

---
 tf_encrypted/convert/nodes.py | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/tf_encrypted/convert/nodes.py b/tf_encrypted/convert/nodes.py
index fdaa9ca..c27b2c6 100644
--- a/tf_encrypted/convert/nodes.py
+++ b/tf_encrypted/convert/nodes.py
@@ -619,6 +619,15 @@ class SoftmaxNode(BaseNode):
         assert isinstance(inputs[0], list), "input shape must be a list"
         self._input_shapes.append(inputs[0])
 
+        # exchanges the axis with the last one
+        self.perm = None
+        rank = len(inputs[0])
+        for attr in node.attribute:
+            if attr.name == "axis" and attr.i % rank != rank - 1:
+                self.perm = list(range(rank))
+                self.perm[attr.i] = rank - 1
+                self.perm[rank - 1] = attr.i % rank
+
         self.layer = Activation("softmax")
         self.layer.build(self._input_shapes[0])
         self._output_shapes.append(
@@ -626,10 +635,21 @@ class SoftmaxNode(BaseNode):
         )
 
     def forward(self, x):
-        return [self.layer.call(x[0])]
+        x = x[0]
+        if self.perm is not None:
+            x = tfe.transpose(x, perm=self.perm)
+        y = self.layer.call(x)
+        if self.perm is not None:
+            y = tfe.transpose(y, perm=self.perm)
+        return [y]
 
     def backward(self, d_y):
-        grad_weights, d_y = self.layer.backward(d_y[0])
+        d_y = d_y[0]
+        if self.perm is not None:
+            d_y = tfe.transpose(d_y, perm=self.perm)
+        grad_weights, d_y = self.layer.backward(d_y)
+        if self.perm is not None:
+            d_y = tfe.transpose(d_y, perm=self.perm)
         return grad_weights, [d_y]
 
 
-- 
2.43.0


From 813bbfedcb18a7c2047798f3deb31db2b1e2d5fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:14 +0000
Subject: [PATCH 75/95] fix: converted slices

---
 tf_encrypted/convert/nodes.py | 48 ++++++++++++++++++++---------------
 1 file changed, 28 insertions(+), 20 deletions(-)

diff --git a/tf_encrypted/convert/nodes.py b/tf_encrypted/convert/nodes.py
index c27b2c6..71d5e6e 100644
--- a/tf_encrypted/convert/nodes.py
+++ b/tf_encrypted/convert/nodes.py
@@ -718,26 +718,32 @@ class StrideSliceNode(BaseNode):
         assert isinstance(inputs[0], list), "input shape must be a list"
         self._input_shapes.append(inputs[0])
 
-        self.begin = [0] * len(inputs[0])
-        self.end = deepcopy(inputs[0])
-        self.strides = [1] * len(inputs[0])
-        if len(inputs) > 3:
-            self.axes = inputs[3]
-        else:
-            self.axes = range(len(inputs[0]))
-
-        if len(inputs) == 5:
-            for index, a in enumerate(self.axes):
-                self.strides[a] = inputs[4][index]
-
-        for index, a in enumerate(self.axes):
-            self.begin[a] = inputs[1][index]
-            self.end[a] = inputs[2][index]
-
-        output_shape = deepcopy(self.end)
-        for index, dim in enumerate(output_shape):
-            dim = dim - self.begin[index]
-            dim = dim // self.strides[index]
+        rank = len(inputs[0])
+        constants = [[int(v) for v in constant.numpy()] for constant in inputs[1:]]
+        begin, end = constants[:2]
+        axes = constants[2] if len(constants) > 2 else list(range(len(begin)))
+        strides = constants[3] if len(constants) > 3 else [1] * len(begin)
+
+        # axes which aren't sliced are kept whole
+        self.begin = [0] * rank
+        self.end = [0] * rank
+        self.strides = [1] * rank
+        self.begin_mask = 0
+        self.end_mask = 2**rank - 1
+        limit = np.iinfo(np.int32).max
+        output_shape = deepcopy(inputs[0])
+        for b, e, a, s in zip(begin, end, axes, strides):
+            a = a % rank
+            self.begin[a], self.end[a], self.strides[a] = b, e, s
+            if abs(b) >= limit:
+                self.begin[a] = 0
+                self.begin_mask |= 1 << a
+            if abs(e) >= limit:
+                self.end[a] = 0
+            else:
+                self.end_mask &= ~(1 << a)
+            if inputs[0][a] >= 0:
+                output_shape[a] = len(range(*slice(b, e, s).indices(inputs[0][a])))
         self._output_shapes.append(output_shape)
 
     def forward(self, x):
@@ -747,6 +753,8 @@ class StrideSliceNode(BaseNode):
                 self.begin,
                 self.end,
                 strides=self.strides,
+                begin_mask=self.begin_mask,
+                end_mask=self.end_mask,
             )
         ]
 
-- 
2.43.0


From fdb1418e56946bbc9cb4dc1e2994bf5afebc9d39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:14 +0000
Subject: [PATCH 76/95] fix: converted gathers

---
 tf_encrypted/convert/nodes.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/tf_encrypted/convert/nodes.py b/tf_encrypted/convert/nodes.py
index 71d5e6e..621b2ee 100644
--- a/tf_encrypted/convert/nodes.py
+++ b/tf_encrypted/convert/nodes.py
@@ -775,13 +775,19 @@ class GatherNode(BaseNode):
         for attr in node.attribute:
             attributes[attr.name] = attr
 
-        self.axis = attributes["axis"].i
-        self.indices = inputs[1]
+        self.axis = 0
+        if "axis" in attributes:
+            self.axis = attributes["axis"].i % len(inputs[0])
+        indices = inputs[1].numpy()
+        size = inputs[0][self.axis]
+        if size >= 0:
+            indices = np.where(indices < 0, indices + size, indices)
+        self.indices = tf.constant(indices)
 
         output_shape = []
         for index, dim in enumerate(self._input_shapes[0]):
             if index == self.axis:
-                output_shape.append(len(self.indices))
+                output_shape.extend(indices.shape)
             else:
                 output_shape.append(dim)
         self._output_shapes.append(output_shape)
-- 
2.43.0


From 7433b2dc423bf4817bdc24f59d8b132b427f73b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:14 +0000
Subject: [PATCH 77/95] fix: sizes and shapes of converted splits

---
 tf_encrypted/convert/nodes.py | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/tf_encrypted/convert/nodes.py b/tf_encrypted/convert/nodes.py
index 621b2ee..f36bd2c 100644
--- a/tf_encrypted/convert/nodes.py
+++ b/tf_encrypted/convert/nodes.py
@@ -808,10 +808,18 @@ class SplitNode(BaseNode):
         assert isinstance(inputs[0], list), "input shape must be a list"
         self._input_shapes.append(inputs[0])
 
-        self.axis = node.attribute[0].i
-
+        self.axis = 0
+        sizes = None
         if len(inputs) == 2:
-            self.num_or_size_splits = inputs[1]
+            sizes = [int(size) for size in inputs[1].numpy()]
+        for attr in node.attribute:
+            if attr.name == "axis":
+                self.axis = attr.i
+            if attr.name == "split":
+                sizes = list(attr.ints)
+
+        if sizes is not None:
+            self.num_or_size_splits = sizes
             for size_split in self.num_or_size_splits:
                 output_shape = deepcopy(self._input_shapes[0])
                 output_shape[self.axis] = size_split
@@ -819,8 +827,13 @@ class SplitNode(BaseNode):
         else:
             self.num_or_size_splits = len(node.output)
             output_shape = deepcopy(self._input_shapes[0])
-            output_shape[self.axis] /= self.num_or_size_splits
-            self._output_shapes = [output_shape for i in range(self.num_or_size_splits)]
+            if output_shape[self.axis] >= 0:
+                if output_shape[self.axis] % self.num_or_size_splits != 0:
+                    raise NotImplementedError("Cannot split into unequal parts")
+                output_shape[self.axis] //= self.num_or_size_splits
+            self._output_shapes = [
+                deepcopy(output_shape) for i in range(self.num_or_size_splits)
+            ]
 
     def forward(self, x):
         return tfe.split(x[0], self.num_or_size_splits, self.axis)
-- 
2.43.0


From 2bf2e0c588bd560972ccaeb8a7884658c9d62803 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:14 +0000
Subject: [PATCH 78/95] fix: converted concatenations

---
 tf_encrypted/convert/nodes.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/tf_encrypted/convert/nodes.py b/tf_encrypted/convert/nodes.py
index f36bd2c..3518823 100644
--- a/tf_encrypted/convert/nodes.py
+++ b/tf_encrypted/convert/nodes.py
@@ -848,6 +848,8 @@ class ConcatNode(BaseNode):
     ) -> None:
         super(ConcatNode, self).__init__(node, inputs, model_provider)
         assert isinstance(inputs[0], list), "input shape must be a list"
+        if any(isinstance(input, tf.Tensor) for input in inputs):
+            raise NotImplementedError("Concat with constants is not supported")
         self._input_shapes.extend(inputs)
 
         self.axis = node.attribute[0].i
@@ -855,11 +857,13 @@ class ConcatNode(BaseNode):
         output_shape[self.axis] = 0
         self.input_dims = []
         for input_shape in inputs:
-            self.input_dims.append(input_shape[self.axis])
             output_shape[self.axis] += input_shape[self.axis]
+        if any(input_shape[self.axis] < 0 for input_shape in inputs):
+            output_shape[self.axis] = -1
         self._output_shapes.append(output_shape)
 
     def forward(self, x):
+        self.input_dims = [int(v.shape[self.axis]) for v in x]
         return [tfe.concat(x, axis=self.axis)]
 
     def backward(self, d_y):
-- 
2.43.0


From 406bce65b7adfa3f11c2451ef5f62d81ec33122e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:14 +0000
Subject: [PATCH 79/95] fix: shapes of converted reshapes

---
 tf_encrypted/convert/nodes.py | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/tf_encrypted/convert/nodes.py b/tf_encrypted/convert/nodes.py
index 3518823..c35af40 100644
--- a/tf_encrypted/convert/nodes.py
+++ b/tf_encrypted/convert/nodes.py
@@ -906,7 +906,15 @@ class ReshapeNode(BaseNode):
         assert isinstance(inputs[0], list), "input shape must be a list"
         self._input_shapes.append(inputs[0])
 
-        output_shape = list(inputs[1].numpy())
+        output_shape = [int(dim) for dim in inputs[1].numpy()]
+        for index, dim in enumerate(output_shape):
+            if dim == 0:
+                output_shape[index] = inputs[0][index]
+        if output_shape.count(-1) == 2 and output_shape[0] == inputs[0][0] == -1:
+            # the size of the batch is kept, so the other one is known
+            known = [dim for dim in output_shape if dim != -1]
+            index = output_shape.index(-1, 1)
+            output_shape[index] = int(np.prod(inputs[0][1:]) // np.prod(known))
         self._output_shapes.append(output_shape)
 
     def forward(self, x):
@@ -926,8 +934,15 @@ class FlattenNode(BaseNode):
         assert isinstance(inputs[0], list), "input shape must be a list"
         self._input_shapes.append(inputs[0])
 
-        last_dim = reduce(lambda x, y: x * y, list(inputs[0][1:]))
-        self._output_shapes.append([-1, last_dim])
+        axis = 1
+        for attr in node.attribute:
+            if attr.name == "axis":
+                axis = attr.i % len(inputs[0])
+        if axis == 0:
+            self._output_shapes.append([1, -1])
+        else:
+            last_dim = reduce(lambda x, y: x * y, list(inputs[0][axis:]))
+            self._output_shapes.append([-1, last_dim])
 
     def forward(self, x):
         x = x[0]
-- 
2.43.0


From a4c78e1234ed305b9841d826cd1acefc497858b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:14 +0000
Subject: [PATCH 80/95] fix: converted Unsqueeze and Squeeze

---
 tf_encrypted/convert/nodes.py | 36 +++++++++++++++++++++++------------
 1 file changed, 24 insertions(+), 12 deletions(-)

diff --git a/tf_encrypted/convert/nodes.py b/tf_encrypted/convert/nodes.py
index c35af40..0b31876 100644
--- a/tf_encrypted/convert/nodes.py
+++ b/tf_encrypted/convert/nodes.py
@@ -160,6 +160,16 @@ def _global_pool_attributes(node, inputs):
     raise NotImplementedError("Reductions are only supported over images")
 
 
+def _node_axes(node, inputs):
+    """Axes given as an input, or as an attribute in older models, or None"""
+    if len(inputs) == 2:
+        return [int(axis) for axis in inputs[1].numpy().reshape([-1])]
+    for attr in node.attribute:
+        if attr.name == "axes":
+            return list(attr.ints)
+    return None
+
+
 class AddNode(BaseNode):
     def __init__(
         self, node: NodeProto, inputs: List[tf.Tensor], model_provider: Player
@@ -980,16 +990,19 @@ class ExpandDimsNode(BaseNode):
         assert isinstance(inputs[0], list), "input shape must be a list"
         self._input_shapes.append(inputs[0])
 
-        self.axis = inputs[1].numpy().item()
-        output_shape = []
-        for index, dim in enumerate(inputs[0]):
-            if index == self.axis:
-                output_shape.append(1)
-            output_shape.append(dim)
-        self._output_shapes.append(deepcopy(output_shape))
+        axes = _node_axes(node, inputs)
+        rank = len(inputs[0]) + len(axes)
+        self.axes = sorted(axis % rank for axis in axes)
+        output_shape = deepcopy(inputs[0])
+        for axis in self.axes:
+            output_shape.insert(axis, 1)
+        self._output_shapes.append(output_shape)
 
     def forward(self, x):
-        return [tfe.expand_dims(x[0], axis=self.axis)]
+        x = x[0]
+        for axis in self.axes:
+            x = tfe.expand_dims(x, axis=axis)
+        return [x]
 
     def backward(self, d_y):
         return [], [tfe.reshape(d_y[0], self._input_shapes[0])]
@@ -1003,10 +1016,9 @@ class SqueezeNode(BaseNode):
         assert isinstance(inputs[0], list), "input shape must be a list"
         self._input_shapes.append(inputs[0])
 
-        if len(inputs) == 2:
-            self.axes = list(inputs[1].numpy())
-        else:
-            self.axes = None
+        self.axes = _node_axes(node, inputs)
+        if self.axes is not None:
+            self.axes = [axis % len(inputs[0]) for axis in self.axes]
 
         output_shape = []
         for index, dim in enumerate(self._input_shapes[0]):
-- 
2.43.0


From ee9c204e09f12135b83bd834ce1690d5248196c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:14 +0000
Subject: [PATCH 81/95] fix: refuse what converted Pad cannot do

---
 tf_encrypted/convert/nodes.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/tf_encrypted/convert/nodes.py b/tf_encrypted/convert/nodes.py
index 0b31876..7349097 100644
--- a/tf_encrypted/convert/nodes.py
+++ b/tf_encrypted/convert/nodes.py
@@ -1042,13 +1042,24 @@ class PadNode(BaseNode):
         assert isinstance(inputs[0], list), "input shape must be a list"
         self._input_shapes.append(inputs[0])
 
-        p = list(inputs[1].numpy())
+        for attr in node.attribute:
+            if attr.name == "mode" and attr.s.decode() not in ("", "constant"):
+                raise NotImplementedError("Only constant padding is supported")
+        if len(inputs) > 2 and np.any(inputs[2].numpy() != 0):
+            raise NotImplementedError("Only padding with zeros is supported")
+        if len(inputs) > 3:
+            raise NotImplementedError("Padding of given axes is not supported")
+
+        p = [int(v) for v in inputs[1].numpy()]
+        if any(v < 0 for v in p):
+            raise NotImplementedError("Negative padding is not supported")
         dims = len(p) // 2
         self.paddings_lst = [[p[i], p[i + dims]] for i in range(0, dims)]
 
         output_shape = deepcopy(self._input_shapes[0])
         for i in range(len(output_shape)):
-            output_shape[i] += self.paddings_lst[i][0] + self.paddings_lst[i][1]
+            if output_shape[i] >= 0:
+                output_shape[i] += self.paddings_lst[i][0] + self.paddings_lst[i][1]
         self._output_shapes.append(output_shape)
 
     def forward(self, x):
-- 
2.43.0


From 1e84e7f3017dd9cbbd8e51e9b9ae3870d77271f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:14 +0000
Subject: [PATCH 82/95] fix: training of converted models

---
 tf_encrypted/convert/nodes.py | 54 ++++++++++++++++++++++++-----------
 1 file changed, 38 insertions(+), 16 deletions(-)

diff --git a/tf_encrypted/convert/nodes.py b/tf_encrypted/convert/nodes.py
index 7349097..3b6f130 100644
--- a/tf_encrypted/convert/nodes.py
+++ b/tf_encrypted/convert/nodes.py
@@ -170,43 +170,62 @@ def _node_axes(node, inputs):
     return None
 
 
+def _broadcast_shape(a, b):
+    """The shape two shapes broadcast to, sizes of the batch are -1"""
+    rank = max(len(a), len(b))
+    a = [1] * (rank - len(a)) + list(a)
+    b = [1] * (rank - len(b)) + list(b)
+    return [y if x == 1 else x for x, y in zip(a, b)]
+
+
+def _sum_to_shape(d_y, shape):
+    """The gradient of something which has been broadcast from the given shape"""
+    shape = [int(dim) for dim in shape]
+    while len(d_y.shape) > len(shape):
+        d_y = d_y.reduce_sum(axis=0)
+    for axis, dim in enumerate(shape):
+        if dim == 1 and d_y.shape[axis] != 1:
+            d_y = d_y.reduce_sum(axis=axis, keepdims=True)
+    return d_y
+
+
 class AddNode(BaseNode):
     def __init__(
         self, node: NodeProto, inputs: List[tf.Tensor], model_provider: Player
     ) -> None:
         super(AddNode, self).__init__(node, inputs, model_provider)
+        if isinstance(inputs[0], tf.Tensor):
+            # the order doesn't matter
+            inputs = [inputs[1], inputs[0]]
         assert isinstance(inputs[0], list), "input shape must be a list"
         self._input_shapes.append(inputs[0])
-        self._output_shapes.append(inputs[0])
         input_b = inputs[1]
 
         if isinstance(input_b, tf.Tensor):
-            assert isinstance(inputs[1], tf.Tensor), "bias must be a tensor"
+            self._output_shapes.append(
+                _broadcast_shape(inputs[0], input_b.shape.as_list())
+            )
             self.bias = tfe.define_private_input(model_provider, lambda: inputs[1])
             self.bias = tfe.define_private_variable(self.bias)
             self._weights.append(self.bias)
         else:
             assert isinstance(inputs[1], list), "input shape must be a list"
+            self._output_shapes.append(_broadcast_shape(inputs[0], inputs[1]))
             self.bias = None
 
     def forward(self, x):
+        self._shapes = [v.shape for v in x]
         if self.bias is None:
             return [tfe.add(x[0], x[1])]
         else:
-            return [tfe.add(x[0], self.bias)]
+            return [tfe.add(x[0], self.bias.read_value())]
 
     def backward(self, d_y):
         d_y = d_y[0]
         grad_weights = []
-        if self.bias is None:
-            d_ys = [d_y, d_y]
-        else:
-            batch_size = d_y.shape[0]
-            d_bias = d_y.reduce_sum(axis=0)
-            d_bias = d_bias / batch_size
-            grad_weights.append(d_bias)
-            d_ys = [d_y]
-        return grad_weights, d_ys
+        if self.bias is not None:
+            grad_weights.append(_sum_to_shape(d_y, self.bias.shape))
+        return grad_weights, [_sum_to_shape(d_y, shape) for shape in self._shapes]
 
 
 class SubNode(BaseNode):
@@ -217,14 +236,15 @@ class SubNode(BaseNode):
         assert isinstance(inputs[0], list), "input shape must be a list"
         assert isinstance(inputs[1], list), "input shape must be a list"
         self._input_shapes.append(inputs[0])
-        self._output_shapes.append(inputs[0])
+        self._output_shapes.append(_broadcast_shape(inputs[0], inputs[1]))
 
     def forward(self, x):
+        self._shapes = [v.shape for v in x]
         return [tfe.sub(x[0], x[1])]
 
     def backward(self, d_y):
-        d_y = d_y[0]
-        return [], [d_y, tfe.negative(d_y)]
+        d_ys = [d_y[0], tfe.negative(d_y[0])]
+        return [], [_sum_to_shape(d, shape) for d, shape in zip(d_ys, self._shapes)]
 
 
 class MulNode(BaseNode):
@@ -235,7 +255,7 @@ class MulNode(BaseNode):
         assert isinstance(inputs[0], list), "input shape must be a list"
         assert isinstance(inputs[1], list), "input shape must be a list"
         self._input_shapes.append(inputs[0])
-        self._output_shapes.append(inputs[0])
+        self._output_shapes.append(_broadcast_shape(inputs[0], inputs[1]))
 
         self.a, self.b = None, None
 
@@ -247,6 +267,8 @@ class MulNode(BaseNode):
         d_y = d_y[0]
         d_a = tfe.mul(self.b, d_y)
         d_b = tfe.mul(self.a, d_y)
+        d_a = _sum_to_shape(d_a, self.a.shape)
+        d_b = _sum_to_shape(d_b, self.b.shape)
         return [], [d_a, d_b]
 
 
-- 
2.43.0


From c419d4b5a70437c86ae628808749779333ec53bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:14 +0000
Subject: [PATCH 83/95] fix: gradients of tensors with several uses in
 converted models

---
 tf_encrypted/convert/convert.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/tf_encrypted/convert/convert.py b/tf_encrypted/convert/convert.py
index 483acb7..ab4889a 100644
--- a/tf_encrypted/convert/convert.py
+++ b/tf_encrypted/convert/convert.py
@@ -236,8 +236,12 @@ class Converter:
 
         def backward_function(d_y):
             dy_dict = {}
+
+            def add_dy(name, dy):
+                dy_dict[name] = dy_dict[name] + dy if name in dy_dict else dy
+
             for index, output in enumerate(model_proto.graph.output):
-                dy_dict[output.name] = d_y[index]
+                add_dy(output.name, d_y[index])
             for node in reversed(nodes):
                 d_y = []
                 tfe_node = tfe_nodes[node.name]
@@ -251,7 +255,7 @@ class Converter:
                 index = 0
                 for input in node.input:
                     if input in nodes_output:
-                        dy_dict[input] = d_y[index]
+                        add_dy(input, d_y[index])
                         index += 1
 
             res_dy = []
-- 
2.43.0


From e4c6517c9822f964b3a0ddd1fd6ed15c9ae6581b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:14 +0000
Subject: [PATCH 84/95] fix: read every kind of initializer when converting

---
 tf_encrypted/convert/convert.py | 23 +++++++++++------------
 1 file changed, 11 insertions(+), 12 deletions(-)

diff --git a/tf_encrypted/convert/convert.py b/tf_encrypted/convert/convert.py
index ab4889a..ef0a4e8 100644
--- a/tf_encrypted/convert/convert.py
+++ b/tf_encrypted/convert/convert.py
@@ -8,11 +8,10 @@ from typing import List
 from typing import Optional
 from typing import Union
 
-import numpy as np
 import onnx
 import tensorflow as tf
 import tf2onnx
-from onnx.mapping import TENSOR_TYPE_TO_NP_TYPE
+from onnx import numpy_helper
 from onnx.onnx_ml_pb2 import ModelProto
 from tf2onnx import optimizer
 
@@ -172,21 +171,21 @@ class Converter:
         initializers = {}
 
         for initializer in model_proto.graph.initializer:
-            name = initializer.name
-            shape = initializer.dims
-            data_type = TENSOR_TYPE_TO_NP_TYPE[initializer.data_type]
-            data = np.frombuffer(initializer.raw_data, dtype=data_type)
-            data = data.reshape(shape)
-            data = tf.convert_to_tensor(data)
-            initializers[name] = data
+            data = numpy_helper.to_array(initializer)
+            initializers[initializer.name] = tf.convert_to_tensor(data)
         return initializers
 
+    def _graph_inputs(self, model_proto):
+        # older models list their initializers among the inputs
+        names = {initializer.name for initializer in model_proto.graph.initializer}
+        return [input for input in model_proto.graph.input if input.name not in names]
+
     def _build_node(
         self, model_input_shapes, model_proto, model_initializers, model_providers
     ):
         tfe_nodes = {}
         input_shapes = {}
-        for index, input in enumerate(model_proto.graph.input):
+        for index, input in enumerate(self._graph_inputs(model_proto)):
             input_shapes[input.name] = model_input_shapes[index]
 
         for node in model_proto.graph.node:
@@ -212,7 +211,7 @@ class Converter:
 
         def forward_function(x):
             node_outputs = {}
-            for index, input in enumerate(model_proto.graph.input):
+            for index, input in enumerate(self._graph_inputs(model_proto)):
                 node_outputs[input.name] = x[index]
             for node in nodes:
                 inputs = []
@@ -232,7 +231,7 @@ class Converter:
 
     def _build_backward(self, model_proto, tfe_nodes, nodes_output, optimizer):
         nodes = model_proto.graph.node
-        graph_input = model_proto.graph.input
+        graph_input = self._graph_inputs(model_proto)
 
         def backward_function(d_y):
             dy_dict = {}
-- 
2.43.0


From 8eb195043965fc92fb16725342c91872e93c0368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:14 +0000
Subject: [PATCH 85/95] fix: convert graphs whose nodes have no names

---
 tf_encrypted/convert/convert.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/tf_encrypted/convert/convert.py b/tf_encrypted/convert/convert.py
index ef0a4e8..a21e01c 100644
--- a/tf_encrypted/convert/convert.py
+++ b/tf_encrypted/convert/convert.py
@@ -200,7 +200,8 @@ class Converter:
                         "Node " + node.name + " input: " + input + " doesn't found!"
                     )
             tfe_node = build_node(node, inputs, model_providers)
-            tfe_nodes[node.name] = tfe_node
+            # names of nodes are optional, names of outputs are unique
+            tfe_nodes[node.output[0]] = tfe_node
             for index, output in enumerate(node.output):
                 input_shapes[output] = tfe_node.output_shape[index]
 
@@ -218,8 +219,8 @@ class Converter:
                 for input in node.input:
                     if input in node_outputs.keys():
                         inputs.append(node_outputs[input])
-                with tf.name_scope(node.name + "/forward"):
-                    res = tfe_nodes[node.name].forward(inputs)
+                with tf.name_scope((node.name or node.op_type) + "/forward"):
+                    res = tfe_nodes[node.output[0]].forward(inputs)
                 for i, output in enumerate(node.output):
                     node_outputs[output] = res[i]
             res = []
@@ -243,11 +244,11 @@ class Converter:
                 add_dy(output.name, d_y[index])
             for node in reversed(nodes):
                 d_y = []
-                tfe_node = tfe_nodes[node.name]
+                tfe_node = tfe_nodes[node.output[0]]
                 for output in node.output:
                     d_y.append(dy_dict[output])
 
-                with tf.name_scope(node.name + "/backward"):
+                with tf.name_scope((node.name or node.op_type) + "/backward"):
                     grad_weights, d_y = tfe_node.backward(d_y)
                     optimizer.apply_gradients(tfe_node.weights, grad_weights)
 
-- 
2.43.0


From 39d1127d5b47ea205162233ec45fa104afb2746b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:14 +0000
Subject: [PATCH 86/95] fix: the converter leaves the caller's shapes alone

---
 tf_encrypted/convert/convert.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/tf_encrypted/convert/convert.py b/tf_encrypted/convert/convert.py
index a21e01c..42bb48e 100644
--- a/tf_encrypted/convert/convert.py
+++ b/tf_encrypted/convert/convert.py
@@ -151,8 +151,7 @@ class Converter:
                 self._optimizer.compile(self.weights)
                 self.backward_func = self.backward_builder(optimizer=self._optimizer)
 
-        for input_shape in input_shapes:
-            input_shape[0] = -1
+        input_shapes = [[-1] + list(input_shape[1:]) for input_shape in input_shapes]
         initializers = self._build_initializer(model_proto)
         tfe_nodes, nodes_output = self._build_node(
             input_shapes, model_proto, initializers, model_provider
-- 
2.43.0


From 8f73948d923af5549d0956af1556f5eae3ee6eef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:15 +0000
Subject: [PATCH 87/95] fix: compiling a converted model again takes effect

---
 tf_encrypted/convert/convert.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tf_encrypted/convert/convert.py b/tf_encrypted/convert/convert.py
index 42bb48e..735a6de 100644
--- a/tf_encrypted/convert/convert.py
+++ b/tf_encrypted/convert/convert.py
@@ -145,6 +145,7 @@ class Converter:
                     raise NotImplementedError("Backward is not support")
                 self._optimizer = optimizers.get(optimizer)
                 self._loss = loss
+                self.train_function = None
                 assert self._optimizer is not None, "An optimizer must be specified."
                 assert self._loss is not None, "A loss must be specified."
 
-- 
2.43.0


From 2d74ee2dc4f1854a9b08433a98afebfb1bb19c77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:19 +0000
Subject: [PATCH 88/95] fix: public arguments of ABY3 local computations

---
 tf_encrypted/protocol/aby3/aby3.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tf_encrypted/protocol/aby3/aby3.py b/tf_encrypted/protocol/aby3/aby3.py
index 1ffb68f..71898e8 100644
--- a/tf_encrypted/protocol/aby3/aby3.py
+++ b/tf_encrypted/protocol/aby3/aby3.py
@@ -608,7 +608,7 @@ class ABY3(Protocol):
                 return x
 
             if isinstance(x, ABY3PublicTensor):
-                w, _ = x.unwrapped
+                w, _, _ = x.unwrapped
                 v = self._decode(w, x.is_scaled)
                 return v
 
-- 
2.43.0


From 4f999d5f4b6e32fb7b4d4a321ed61cc45a070ae4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:19 +0000
Subject: [PATCH 89/95] fix: boolean arguments of ABY3 local computations

---
 tf_encrypted/protocol/aby3/aby3.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tf_encrypted/protocol/aby3/aby3.py b/tf_encrypted/protocol/aby3/aby3.py
index 71898e8..2effe12 100644
--- a/tf_encrypted/protocol/aby3/aby3.py
+++ b/tf_encrypted/protocol/aby3/aby3.py
@@ -614,7 +614,7 @@ class ABY3(Protocol):
 
             if isinstance(x, ABY3PrivateTensor):
                 shares = x.unwrapped
-                w = self._reconstruct(shares, player, share_type)
+                w = self._reconstruct(shares, player, x.share_type)
                 v = self._decode(w, x.is_scaled)
                 return v
 
-- 
2.43.0


From 33bc4b5bc6127a16190b5e95baabc3c20a01848c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:19 +0000
Subject: [PATCH 90/95] fix: masked private inputs keep the value with its
 owner

---
 tf_encrypted/protocol/pond/pond.py | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/tf_encrypted/protocol/pond/pond.py b/tf_encrypted/protocol/pond/pond.py
index 207fc58..f20b9eb 100644
--- a/tf_encrypted/protocol/pond/pond.py
+++ b/tf_encrypted/protocol/pond/pond.py
@@ -554,17 +554,13 @@ class Pond(Protocol):
             if not masked:
                 return x
             with tf.name_scope("local_mask"):
-                with tf.device(self.triple_source.producer.device_name):
-                    seed0 = crypto.secure_seed()
-                    seed1 = crypto.secure_seed()
-                    a = factory.sample_seeded_uniform(v.shape, seed0)
-                    +factory.sample_seeded_uniform(v.shape, seed1)
-                    alpha = w - a
+                a, a0, a1 = self.triple_source.mask(factory, v.shape)
+                alpha = w - a
                 with tf.device(self.server_0.device_name):
-                    a0 = factory.sample_seeded_uniform(v.shape, seed0)
+                    a0 = a0.identity()
                     alpha0 = alpha.identity()
                 with tf.device(self.server_1.device_name):
-                    a1 = factory.sample_seeded_uniform(v.shape, seed1)
+                    a1 = a1.identity()
                     alpha1 = alpha.identity()
 
             return PondMaskedTensor(self, x, a, a0, a1, alpha0, alpha1, apply_scaling)
-- 
2.43.0


From 8668f74c2dea2eb07bbf041de1258e0f16e51961 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:19 +0000
Subject: [PATCH 91/95] fix: keyword arguments of ABY3 local computations

---
 tf_encrypted/protocol/aby3/aby3.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/tf_encrypted/protocol/aby3/aby3.py b/tf_encrypted/protocol/aby3/aby3.py
index 2effe12..0ae2df1 100644
--- a/tf_encrypted/protocol/aby3/aby3.py
+++ b/tf_encrypted/protocol/aby3/aby3.py
@@ -544,10 +544,20 @@ class ABY3(Protocol):
                         "tfe.local_computation decorator."
                     )
 
+                keywords = [k for k in compute_func_kwargs if k != "player_name"]
+                num_args = len(compute_func_args)
+
+                def call_compute_func(*inputs):
+                    named_inputs = dict(zip(keywords, inputs[num_args:]))
+                    return compute_func(*inputs[:num_args], **named_inputs)
+
                 return self.define_local_computation(
                     actual_player_name,
-                    compute_func,
-                    arguments=compute_func_args,
+                    call_compute_func,
+                    arguments=[
+                        *compute_func_args,
+                        *(compute_func_kwargs[k] for k in keywords),
+                    ],
                     **kwargs,
                 )
 
-- 
2.43.0


From 73e6211f7d5a3206cd953dd04727f56e76f8149f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:19 +0000
Subject: [PATCH 92/95] fix: keyword arguments of Pond local computations

---
 tf_encrypted/protocol/pond/pond.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/tf_encrypted/protocol/pond/pond.py b/tf_encrypted/protocol/pond/pond.py
index f20b9eb..2d12969 100644
--- a/tf_encrypted/protocol/pond/pond.py
+++ b/tf_encrypted/protocol/pond/pond.py
@@ -496,10 +496,20 @@ class Pond(Protocol):
                         "tfe.local_computation decorator."
                     )
 
+                keywords = [k for k in compute_func_kwargs if k != "player_name"]
+                num_args = len(compute_func_args)
+
+                def call_compute_func(*inputs):
+                    named_inputs = dict(zip(keywords, inputs[num_args:]))
+                    return compute_func(*inputs[:num_args], **named_inputs)
+
                 return self.define_local_computation(
                     actual_player_name,
-                    compute_func,
-                    arguments=compute_func_args,
+                    call_compute_func,
+                    arguments=[
+                        *compute_func_args,
+                        *(compute_func_kwargs[k] for k in keywords),
+                    ],
                     **kwargs,
                 )
 
-- 
2.43.0


From 04b20856e631cb01e548b4f4af1f045ad2de22cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:19 +0000
Subject: [PATCH 93/95] fix: data owners provide their whole data every time,
 on their own device

---
 tf_encrypted/player/data_owner.py | 31 ++++++++++++++++++++-----------
 1 file changed, 20 insertions(+), 11 deletions(-)

diff --git a/tf_encrypted/player/data_owner.py b/tf_encrypted/player/data_owner.py
index 7f536ea..0f5547c 100644
--- a/tf_encrypted/player/data_owner.py
+++ b/tf_encrypted/player/data_owner.py
@@ -20,9 +20,11 @@ class DataOwner:
         assert isinstance(self.player, tfe.player.Player)
 
         self.num_samples = num_samples
+        self.generator_builder = generator_builder
         with tf.device(self.player.device_name):
             self.generator = generator_builder()
             self.first_element = next(self.generator)
+            self.untouched = True
 
             if isinstance(self.first_element, (list, tuple)):
                 self.first_data_x = self.first_element[0]
@@ -44,17 +46,24 @@ class DataOwner:
         return self.first_data_y.shape[1]
 
     def provide_data(self):
-        def share(plain_iter):
-
-            if isinstance(self.first_element, (list, tuple)):
-                yield (
-                    tfe.define_private_input(self.player.name, lambda: data)
-                    for data in self.first_element
-                )
+        def plain_elements():
+            if self.untouched:
+                # the generator has already produced its first element
+                self.untouched = False
+                generator = self.generator
+                yield self.first_element
             else:
-                yield tfe.define_private_input(
-                    self.player.name, lambda: self.first_element
-                )
+                with tf.device(self.player.device_name):
+                    generator = self.generator_builder()
+            while True:
+                with tf.device(self.player.device_name):
+                    try:
+                        plain_data = next(generator)
+                    except StopIteration:
+                        return
+                yield plain_data
+
+        def share(plain_iter):
 
             for plain_data in plain_iter:
                 if isinstance(plain_data, (list, tuple)):
@@ -65,4 +74,4 @@ class DataOwner:
                 else:
                     yield tfe.define_private_input(self.player.name, lambda: plain_data)
 
-        return share(self.generator)
+        return share(plain_elements())
-- 
2.43.0


From b564432415b35f2872019ed65f675d1b19b3eb74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:58 +0000
Subject: [PATCH 94/95] fix: ABY3 while_loop (and sort) in functions works with
 TensorFlow releases after 2.9

---
 tf_encrypted/protocol/aby3/aby3.py | 62 +++---------------------------
 1 file changed, 6 insertions(+), 56 deletions(-)

diff --git a/tf_encrypted/protocol/aby3/aby3.py b/tf_encrypted/protocol/aby3/aby3.py
index 0ae2df1..a10c708 100644
--- a/tf_encrypted/protocol/aby3/aby3.py
+++ b/tf_encrypted/protocol/aby3/aby3.py
@@ -6,8 +6,6 @@ Implementation of the ABY3 framework.
 from __future__ import absolute_import
 
 import math
-import random
-import string
 import sys
 from functools import reduce
 from functools import wraps
@@ -22,8 +20,6 @@ from typing import Union
 import numpy as np
 import tensorflow as tf
 from tensorflow.python.eager import context
-from tensorflow.python.ops.while_v2 import _build_while_op
-from tensorflow.python.ops.while_v2 import glob_stateful_parallelism
 
 from ...config import get_config
 from ...operations import dataset
@@ -3729,65 +3725,19 @@ def _while_loop_(prot, cond, body, loop_vars):
             _wrapped_vars.append(var)
         return _wrapped_vars
 
-    @tf.function
-    def cond_wrapper(*unwrapped_loop_vars):
-        unwrapped_loop_vars = unwrapped_loop_vars[0:native_vars_nums]
-        wrapped_loop_vars = wrap(aux_info, unwrapped_loop_vars)
-        return cond(*wrapped_loop_vars)
-
-    @tf.function
-    def body_wrapper(*unwrapped_loop_vars):
-        unwrapped_loop_vars = unwrapped_loop_vars[0:native_vars_nums]
-        wrapped_loop_vars = wrap(aux_info, unwrapped_loop_vars)
-        wrapped_result = body(*wrapped_loop_vars)
-        _, unwrapped_result = unwrap(wrapped_result)
-        return unwrapped_result
-
     if context.executing_eagerly():
         while cond(*loop_vars):
             loop_vars = body(*loop_vars)
         return loop_vars
 
     aux_info, native_vars = unwrap(loop_vars)
-    native_vars_nums = len(native_vars)
-
-    body_func = body_wrapper.get_concrete_function(*native_vars)
-    native_vars.extend(body_func.captured_inputs)
-    cond_graph = cond_wrapper.get_concrete_function(*native_vars).graph
-    body_graph = body_func.graph
-    body_graph.outputs.extend(body_graph.internal_captures)
-    output_shapes = [var.shape for var in native_vars]
-
-    cond_graph.name = "".join(
-        random.choices(string.ascii_uppercase + string.digits, k=10)
-    )
-    body_graph.name = "".join(
-        random.choices(string.ascii_uppercase + string.digits, k=10)
+    result = tf.while_loop(
+        lambda *native: cond(*wrap(aux_info, native)),
+        lambda *native: unwrap(body(*wrap(aux_info, native)))[1],
+        native_vars,
+        # One iteration after the other: each moves the servers' nonces on
+        parallel_iterations=1,
     )
-
-    if glob_stateful_parallelism == "stateless_cond":
-        stateful_parallelism = not any(
-            op._is_stateful for op in cond_graph.get_operations()
-        )
-    else:
-        stateful_parallelism = glob_stateful_parallelism
-
-    with tf.control_dependencies(
-        list(cond_graph.control_captures) + list(body_graph.control_captures)
-    ):
-        result = _build_while_op(
-            native_vars,
-            cond_graph,
-            body_graph,
-            output_shapes,
-            name="while_op",
-            parallel_iterations=10,
-            num_original_outputs=len(native_vars),
-            stateful_parallelism=stateful_parallelism,
-        )
-    result = result[:native_vars_nums]
-    if not isinstance(result, (tuple, list)):
-        result = [result]
     return wrap(aux_info, result)
 
 
-- 
2.43.0


From ed8d5423b9ad1f3175aabe428823204efe49c4d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:24 +0000
Subject: [PATCH 95/95] fix: assigning a boolean sharing to an arithmetic ABY3
 variable is refused

---
 tf_encrypted/protocol/aby3/aby3.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/tf_encrypted/protocol/aby3/aby3.py b/tf_encrypted/protocol/aby3/aby3.py
index a10c708..1cf5c34 100644
--- a/tf_encrypted/protocol/aby3/aby3.py
+++ b/tf_encrypted/protocol/aby3/aby3.py
@@ -1141,6 +1141,13 @@ class ABY3(Protocol):
                 value.is_scaled,
             )
 
+            assert (
+                variable.share_type == value.share_type
+            ), "Share types must match: {}, {}".format(
+                variable.share_type,
+                value.share_type,
+            )
+
             var_shares = variable.unwrapped
             val_shares = value.unwrapped
 
-- 
2.43.0

