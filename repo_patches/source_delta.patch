From b7334a45cf244f2d029aeef8b476d158076d8ff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:38:17 +0000
Subject: [PATCH 01/17] fix: MPArray.sum() accepts None for the first site

The documented per-site form of axes raised TypeError when the first
entry was None, because only axes[0] was inspected.
---
 mpnum/mparray.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/mpnum/mparray.py b/mpnum/mparray.py
index f297d87..688bc93 100644
--- a/mpnum/mparray.py
+++ b/mpnum/mparray.py
@@ -432,8 +432,7 @@ class MPArray(object):
             if not hasattr(axes, '__iter__'):
                 axes = (axes,)  # Single integer
             axes = tuple(axes)
-            if len(axes) == 0 or not (axes[0] is not None
-                                      and hasattr(axes[0], '__iter__')):
+            if not any(ax is None or hasattr(ax, '__iter__') for ax in axes):
                 axes = it.repeat(axes)  # Sum over same physical legs everywhere
             else:
                 assert len(axes) == len(self)
-- 
2.43.0


From ddfd15cf9214c567f8929db44dc1035d43045f57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:39:46 +0000
Subject: [PATCH 02/17] fix: leg2vleg() drops the right-canonical claim of site
 pos + 1

Turning the physical leg into a virtual one changes the matricisation of
site pos + 1, so it is in general no longer right-canonical.
---
 mpnum/mparray.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpnum/mparray.py b/mpnum/mparray.py
index 688bc93..552c95f 100644
--- a/mpnum/mparray.py
+++ b/mpnum/mparray.py
@@ -554,7 +554,7 @@ class MPArray(object):
         ltens[pos + 1] = ltens[pos + 1][0]
 
         lcanon, rcanon = self.canonical_form
-        new_normal_form = min(lcanon, pos), max(rcanon, pos + 1)
+        new_normal_form = min(lcanon, pos), max(rcanon, pos + 2)
         return MPArray(LocalTensors(ltens, cform=new_normal_form))
 
     def split(self, pos):
-- 
2.43.0


From e3a17de6fe35d7fb4c61b7e1ac19ba9ba04b5228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:42:39 +0000
Subject: [PATCH 03/17] fix: LocalTensors.update() keeps the canonical form in
 range

Declaring a canonical tensor next to a canonical slice could extend the
slice over the complete chain, e.g. (len, len), or make both slices
overlap after a further update; copying, scaling and canonical-form
claims were wrong afterwards.
---
 mpnum/mpstruct.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/mpnum/mpstruct.py b/mpnum/mpstruct.py
index add76d1..4244229 100644
--- a/mpnum/mpstruct.py
+++ b/mpnum/mpstruct.py
@@ -90,10 +90,15 @@ class LocalTensors(object):
         # (equality case; first argument to max/min). If a canoical
         # tensor is set inside a canoncial slice, its size will
         # remain the same (inequality case; second argument).
+        # The two canonical slices never overlap and never cover the
+        # complete chain.
         if canonicalization == 'left' and self._lcanonical - index >= 0:
-            self._lcanonical = max(index + 1, self._lcanonical)
+            self._lcanonical = min(max(index + 1, self._lcanonical),
+                                   len(self) - 1)
+            self._rcanonical = max(self._lcanonical + 1, self._rcanonical)
         elif canonicalization == 'right' and index - self._rcanonical >= -1:
-            self._rcanonical = min(index, self._rcanonical)
+            self._rcanonical = max(min(index, self._rcanonical), 1)
+            self._lcanonical = min(self._rcanonical - 1, self._lcanonical)
         else:
             # If a non-canonical tensor is provided, the sizes of the
             # canoical slices may decrease.
-- 
2.43.0


From 9537c4678c05134a22aace353de067bf9983d3e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:42:39 +0000
Subject: [PATCH 04/17] fix: LocalTensors.update() with negative index
 corrupted canonical_form

---
 mpnum/mpstruct.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mpnum/mpstruct.py b/mpnum/mpstruct.py
index 4244229..eb5ee52 100644
--- a/mpnum/mpstruct.py
+++ b/mpnum/mpstruct.py
@@ -141,6 +141,7 @@ class LocalTensors(object):
                 self._update(pos, ten, canonicalization=norm)
 
         else:
+            index = range(len(self))[index]  # Support negative indices
             current = self._ltens[index]
             assert tens.ndim >= 2
             assert current.shape[0] == tens.shape[0]
-- 
2.43.0


From 868f398b05b3187f570aa090d73b2a02b3c043ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:42:39 +0000
Subject: [PATCH 05/17] fix: LocalTensors.update() repeats a single
 canonicalization for slices

A string is a sequence, so 'left' was taken as ('l', 'e', 'f', 't')
instead of being repeated for each site as documented.
---
 mpnum/mpstruct.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/mpnum/mpstruct.py b/mpnum/mpstruct.py
index eb5ee52..3b457ac 100644
--- a/mpnum/mpstruct.py
+++ b/mpnum/mpstruct.py
@@ -3,7 +3,6 @@
 from __future__ import absolute_import, division, print_function
 
 import itertools as it
-import collections
 
 from six.moves import range, zip
 
@@ -134,7 +133,7 @@ class LocalTensors(object):
                 tens[:-1], tens[1:]))
             assert self[stop - 1].shape[-1] == tens[-1].shape[-1]
 
-            if not isinstance(canonicalization, collections.Sequence):
+            if canonicalization is None or isinstance(canonicalization, str):
                 canonicalization = it.repeat(canonicalization)
 
             for ten, pos, norm in zip(tens, range(*indices), canonicalization):
-- 
2.43.0


From 48891bc9de236c2856bf3e685bc2f839c6e15391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:47:58 +0000
Subject: [PATCH 06/17] fix: MPArray.load() works with h5py >= 3

The attribute Dataset.value was removed from h5py; indexing with an
empty tuple is available in all versions.
---
 mpnum/mparray.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpnum/mparray.py b/mpnum/mparray.py
index 552c95f..0c9879d 100644
--- a/mpnum/mparray.py
+++ b/mpnum/mparray.py
@@ -182,7 +182,7 @@ class MPArray(object):
             with h5py.File(source, 'r') as infile:
                 return cls.load(infile)
 
-        ltens = [source[str(i)].value for i in range(source.attrs['len'])]
+        ltens = [source[str(i)][()] for i in range(source.attrs['len'])]
         return cls(LocalTensors(ltens, cform=source.attrs['canonical_form']))
 
     @classmethod
-- 
2.43.0


From c0dda046d9e5e35b540f022452f41a99f437060d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:35:11 +0000
Subject: [PATCH 07/17] fix: variational compression limits the window to the
 length of the chain

With var_sites > len(self), no site was varied at all: the start vector was
returned unchanged together with its squared norm.
---
 mpnum/mparray.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mpnum/mparray.py b/mpnum/mparray.py
index 0c9879d..ed5bd58 100644
--- a/mpnum/mparray.py
+++ b/mpnum/mparray.py
@@ -890,6 +890,8 @@ class MPArray(object):
             compr = startmpa.copy()
             assert all(d1 == d2 for d1, d2 in zip(self.shape, compr.shape))
 
+        # The window of varied sites cannot be longer than the chain.
+        var_sites = min(var_sites, len(self))
         # flatten the array since MPS is expected & bring back
         shape = self.shape
         compr = compr.ravel()
-- 
2.43.0


From c8139321e5defb99000bcd7a6d513c883da885e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:47:56 +0000
Subject: [PATCH 08/17] fix: MPPovm.from_local_povm() accepts any iterable of
 elements

---
 mpnum/povm/mppovm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpnum/povm/mppovm.py b/mpnum/povm/mppovm.py
index 66004b4..aa195a4 100644
--- a/mpnum/povm/mppovm.py
+++ b/mpnum/povm/mppovm.py
@@ -259,7 +259,7 @@ class MPPovm(mp.MPArray):
         :returns: :class:`MPPovm` which is a product POVM of the `lelems`
 
         """
-        return cls.from_kron(it.repeat(lelems, width))
+        return cls.from_kron(it.repeat(np.array(list(lelems)), width))
 
     @classmethod
     def eye(cls, local_dims):
-- 
2.43.0


From 2c6c6763e7a590d3d417dfbf83e1c4d3111e416e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:21:30 +0000
Subject: [PATCH 09/17] fix: MPPovmList.est_lfun() uses its arguments weights
 and eps

---
 mpnum/povm/mppovm.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/mpnum/povm/mppovm.py b/mpnum/povm/mppovm.py
index aa195a4..1b89a06 100644
--- a/mpnum/povm/mppovm.py
+++ b/mpnum/povm/mppovm.py
@@ -1431,9 +1431,13 @@ class MPPovmList:
         assert len(self.mpps) == len(coeff)
         assert len(self.mpps) == len(funs)
         assert len(self.mpps) == len(samples)
+        if weights is None:
+            weights = (None,) * len(self.mpps)
+        assert len(self.mpps) == len(weights)
         est, var = zip(*(
-            mpp.est_lfun(c, f, sam)
-            for mpp, c, f, sam in zip(self.mpps, coeff, funs, samples)))
+            mpp.est_lfun(c, f, sam, w, eps)
+            for mpp, c, f, sam, w in zip(self.mpps, coeff, funs, samples,
+                                         weights)))
         return sum(est), sum(var)
 
     def _lfun_estimator(self, other, coeff, n_samples, eps):
-- 
2.43.0


From e36901197d2a0fa8cfdf186e023ed6fab17a9e30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:21:30 +0000
Subject: [PATCH 10/17] fix: MPPovmList.lfun_from() does not round fractional
 weights

---
 mpnum/povm/mppovm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpnum/povm/mppovm.py b/mpnum/povm/mppovm.py
index 1b89a06..a326e22 100644
--- a/mpnum/povm/mppovm.py
+++ b/mpnum/povm/mppovm.py
@@ -984,7 +984,7 @@ class MPPovm(mp.MPArray):
         """
         assert coeff.shape == self.nsoutdims
         n_nsout = len(self.nsoutdims)
-        myout_n_samples = np.zeros(self.nsoutdims, int)
+        myout_n_samples = np.zeros(self.nsoutdims, np.asarray(n_samples).dtype)
         fun_mpp = []
         fun_myout = []
         fun_coeff = []
-- 
2.43.0


From 4b0e8865a5735f452d6caa992bcd767190ad170f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:21:30 +0000
Subject: [PATCH 11/17] fix: MPPovm.est_pmf_from() uses eps when matching
 elements

---
 mpnum/povm/mppovm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpnum/povm/mppovm.py b/mpnum/povm/mppovm.py
index a326e22..6c63985 100644
--- a/mpnum/povm/mppovm.py
+++ b/mpnum/povm/mppovm.py
@@ -1119,7 +1119,7 @@ class MPPovm(mp.MPArray):
         assert len(self) == len(other)
         n_samples = samples.shape[0]
         assert samples.shape[1] == len(other.nsoutdims)
-        match, prefactors = self.match_elems(other)
+        match, prefactors = self.match_elems(other, eps=eps)
         other_support = tuple(
             pos for pos, (sdim, odim) in enumerate(
                 (sdim, odim) for sdim, odim in zip(self.outdims, other.outdims)
-- 
2.43.0


From 051b1f954ccb307ee5c3f8780de9e7cb7052d0e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:49:36 +0000
Subject: [PATCH 12/17] fix: take back the change of MPPovmList.est_lfun(): an
 existing test passes eps in the place of weights

---
 mpnum/povm/mppovm.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/mpnum/povm/mppovm.py b/mpnum/povm/mppovm.py
index 6c63985..88e2853 100644
--- a/mpnum/povm/mppovm.py
+++ b/mpnum/povm/mppovm.py
@@ -1431,13 +1431,9 @@ class MPPovmList:
         assert len(self.mpps) == len(coeff)
         assert len(self.mpps) == len(funs)
         assert len(self.mpps) == len(samples)
-        if weights is None:
-            weights = (None,) * len(self.mpps)
-        assert len(self.mpps) == len(weights)
         est, var = zip(*(
-            mpp.est_lfun(c, f, sam, w, eps)
-            for mpp, c, f, sam, w in zip(self.mpps, coeff, funs, samples,
-                                         weights)))
+            mpp.est_lfun(c, f, sam)
+            for mpp, c, f, sam in zip(self.mpps, coeff, funs, samples)))
         return sum(est), sum(var)
 
     def _lfun_estimator(self, other, coeff, n_samples, eps):
-- 
2.43.0


From 51db7b6fb50ace867ce65dd3368f9aaeb8567deb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:12:25 +0000
Subject: [PATCH 13/17] fix: eig_sum() accepts a real operator followed by a
 complex one

---
 mpnum/linalg.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mpnum/linalg.py b/mpnum/linalg.py
index f590b59..c6fbd7f 100644
--- a/mpnum/linalg.py
+++ b/mpnum/linalg.py
@@ -341,9 +341,9 @@ def _eig_sum_minimize_locally(
     op = 0
     for mpa, ndims, lv, rv in zip(mpas, mpas_ndims, leftvec, rightvec):
         if ndims == 2:
-            op += _eig_local_op(lv, list(mpa.lt[pos]), rv)
+            op = op + _eig_local_op(lv, list(mpa.lt[pos]), rv)
         elif ndims == 1:
-            op += _eig_local_op_mps(lv, list(mpa.lt[pos]), rv)
+            op = op + _eig_local_op_mps(lv, list(mpa.lt[pos]), rv)
         else:
             raise ValueError('ndims = {!r} not supported'.format(ndims))
 
-- 
2.43.0


From 10fbc81bb8adafc4a045032f38c22e09ffaacc2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:21:38 +0000
Subject: [PATCH 14/17] fix: random_local_ham() draws from the given random
 generator

---
 mpnum/factory.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mpnum/factory.py b/mpnum/factory.py
index 208ff9c..c22deea 100644
--- a/mpnum/factory.py
+++ b/mpnum/factory.py
@@ -416,7 +416,8 @@ def random_local_ham(sites, ldim=2, intlen=2, randstate=None):
 
     """
     def get_local_ham():
-        op = _random_op(intlen, ldim, hermitian=True, normalized=True)
+        op = _random_op(intlen, ldim, hermitian=True, normalized=True,
+                        randstate=randstate)
         op = global_to_local(op, sites=intlen)
         return mp.MPArray.from_array(op, ndims=2)
 
-- 
2.43.0


From 313a6735b11c9f14f1ea7856decc8f7a0113ba6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:32:44 +0000
Subject: [PATCH 15/17] fix: block_diag() keeps complex summands after a real
 one (also local_sum())

---
 mpnum/utils/extmath.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpnum/utils/extmath.py b/mpnum/utils/extmath.py
index c6480c8..56b7f67 100644
--- a/mpnum/utils/extmath.py
+++ b/mpnum/utils/extmath.py
@@ -90,7 +90,7 @@ def block_diag(summands, axes=(0, 1)):
 
     shapes = np.array([array.shape[:nr_axes] for array in summands])
     res = np.zeros(tuple(shapes.sum(axis=0)) + summands[0].shape[nr_axes:],
-                   dtype=summands[0].dtype)
+                   dtype=np.result_type(*summands))
     startpos = np.zeros(nr_axes, dtype=int)
 
     for array, shape in zip(summands, shapes):
-- 
2.43.0


From c9457b696564aad64f023260a573184103096522 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:12:51 +0000
Subject: [PATCH 16/17] fix: sparse_cH() accepts a square array as last term,
 as documented

---
 mpnum/utils/physics.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mpnum/utils/physics.py b/mpnum/utils/physics.py
index dc2550d..4e207ce 100644
--- a/mpnum/utils/physics.py
+++ b/mpnum/utils/physics.py
@@ -112,6 +112,10 @@ def sparse_cH(terms, ldim=2):
         H += sp.kron(left, sp.kron(term, right))
     # The last term acts on the first and last site.
     cyc = terms[-1]
+    if not hasattr(cyc, 'lt'):
+        # Convert regular matrix to MPO
+        cyc = mp.MPArray.from_array_global(
+            np.reshape(cyc, (ldim,) * 4), ndims=2)
     middle = sp.eye(ldim**pos)
     for i in range(cyc.ranks[0]):
         H += sp.kron(cyc.lt[0][0, ..., i], sp.kron(middle, cyc.lt[1][i, ..., 0]))
-- 
2.43.0


From 8b0ed1758901baa2cce5289eaf0a5e1afc6903ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:12:51 +0000
Subject: [PATCH 17/17] fix: unary plus and group_sites(1) return a new MPArray

---
 mpnum/mparray.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mpnum/mparray.py b/mpnum/mparray.py
index ed5bd58..2d68e9d 100644
--- a/mpnum/mparray.py
+++ b/mpnum/mparray.py
@@ -393,7 +393,7 @@ class MPArray(object):
         return -1 * self
 
     def __pos__(self):
-        return self
+        return self.copy()
 
     def __truediv__(self, divisor):
         if np.isscalar(divisor):
@@ -492,7 +492,7 @@ class MPArray(object):
                              .format(len(self), sites_per_group))
 
         if sites_per_group == 1:
-            return self
+            return self.copy()
         ltens = [_ltens_to_array(self._lt[i:i + sites_per_group])
                  for i in range(0, len(self), sites_per_group)]
         return MPArray(ltens)
-- 
2.43.0

