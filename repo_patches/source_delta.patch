From 74931a6a37552163b26faf0ae73e9a4d3dfa2595 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:23 +0000
Subject: [PATCH 01/35] fix: set the batch size before contracting an MPS

With the output core at the start of the chain (label_site=0, or an adaptive
MPS in its second merge state), the core was expanded to the batch size of
whatever was evaluated before, or raised RuntimeError in a fresh process.
---
 torchmps/torchmps.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/torchmps/torchmps.py b/torchmps/torchmps.py
index 3fdc570..ed36352 100644
--- a/torchmps/torchmps.py
+++ b/torchmps/torchmps.py
@@ -7,6 +7,7 @@ import torch.nn as nn
 
 from .utils import init_tensor, svd_flex
 from .contractables import (
+    Contractable,
     SingleMat,
     MatRegion,
     OutputCore,
@@ -625,6 +626,10 @@ class LinearRegion(nn.Module):
         to_cuda = input_data.is_cuda
         device = f"cuda:{input_data.get_device()}" if to_cuda else "cpu"
 
+        # Modules without inputs (an OutputSite at the start of the chain) are
+        # expanded to the global batch size, so it must match our input
+        Contractable.global_bs = input_data.size(0)
+
         # For each module, pull out the number of pixels needed and call that
         # module's forward() method, putting the result in contractable_list
         ind = 0
-- 
2.43.0


From dae2ae7121734953c72b7782e2a9e2f4ca4c150e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:23 +0000
Subject: [PATCH 02/35] fix: evaluate MPS whose input regions hold a single
 site

InputRegion takes inputs with a site index, but regions of length one were
fed without it, so label_site=1 or label_site=input_dim-1 (and the default
for input_dim of 1, 2 or 3) failed with an AssertionError.
---
 torchmps/torchmps.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/torchmps/torchmps.py b/torchmps/torchmps.py
index ed36352..d263e8a 100644
--- a/torchmps/torchmps.py
+++ b/torchmps/torchmps.py
@@ -636,7 +636,7 @@ class LinearRegion(nn.Module):
         contractable_list = []
         for module in self.module_list:
             mod_len = len(module)
-            if mod_len == 1:
+            if mod_len == 1 and not isinstance(module, InputRegion):
                 mod_input = input_data[:, ind]
             else:
                 mod_input = input_data[:, ind : (ind + mod_len)]
-- 
2.43.0


From 47ebd8b84449b575c80aa1df635aa983e5a15819 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:23 +0000
Subject: [PATCH 03/35] fix: accept paths given as tensors

Tensors pass the type check but their truth value is ambiguous.
---
 torchmps/torchmps.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/torchmps/torchmps.py b/torchmps/torchmps.py
index d263e8a..b2f29cf 100644
--- a/torchmps/torchmps.py
+++ b/torchmps/torchmps.py
@@ -433,7 +433,7 @@ class MPS(nn.Module):
             )
         assert len(self.linear_region) == input_dim
 
-        if path:
+        if path is not None:
             assert isinstance(path, (list, torch.Tensor))
             assert len(path) == input_dim
 
@@ -469,7 +469,7 @@ class MPS(nn.Module):
                                  which act on different parts of the input.
         """
         # For custom paths, rearrange our input into the desired order
-        if self.path:
+        if self.path is not None:
             path_inputs = []
             for site_num in self.path:
                 path_inputs.append(input_data[:, site_num])
-- 
2.43.0


From 4f52603bbf7f344f767cd40be8a5ebe3bffce604 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:00 +0000
Subject: [PATCH 04/35] fix: keep the global batch size separately for each
 thread

Models evaluated at the same time in several threads overwrote each other's
batch size between the creation of input-dependent and input-independent
tensors, which raised errors or gave outputs with the wrong batch size.
---
 torchmps/contractables.py | 21 +++++++++++++++------
 torchmps/torchmps.py      |  2 +-
 2 files changed, 16 insertions(+), 7 deletions(-)

diff --git a/torchmps/contractables.py b/torchmps/contractables.py
index cc6a4e3..a47041b 100644
--- a/torchmps/contractables.py
+++ b/torchmps/contractables.py
@@ -1,6 +1,14 @@
+import threading
+
 import torch
 
 
+class _GlobalBatchSize(threading.local):
+    """Batch size shared by all Contractables created in the same thread"""
+
+    value = None
+
+
 class Contractable:
     """
     Container for tensors with labeled indices and a global batch size
@@ -17,20 +25,21 @@ class Contractable:
         bond_str (str):     A string whose letters each label a separate mode
                             of our tensor, and whose length equals the order
                             (number of modes) of our tensor
-        global_bs (int):    The batch size associated with all Contractables.
-                            This is shared between all Contractable instances
+        global_bs:          Holds the batch size (global_bs.value) associated
+                            with all Contractables. This is shared between all
+                            Contractable instances created in the same thread
                             and allows for automatic expanding of tensors
     """
 
-    # The global batch size
-    global_bs = None
+    # The global batch size, kept separately for each thread
+    global_bs = _GlobalBatchSize()
 
     def __init__(self, tensor, bond_str):
         shape = list(tensor.shape)
         num_dim = len(shape)
         str_len = len(bond_str)
 
-        global_bs = Contractable.global_bs
+        global_bs = Contractable.global_bs.value
         batch_dim = tensor.size(0)
 
         # Expand along a new batch dimension if needed
@@ -56,7 +65,7 @@ class Contractable:
 
         # Set the global batch size if it is unset or needs to be updated
         elif global_bs is None or global_bs != batch_dim:
-            Contractable.global_bs = batch_dim
+            Contractable.global_bs.value = batch_dim
 
         # Check that global batch size agrees with input tensor's first dim
         elif global_bs != batch_dim:
diff --git a/torchmps/torchmps.py b/torchmps/torchmps.py
index b2f29cf..7da082a 100644
--- a/torchmps/torchmps.py
+++ b/torchmps/torchmps.py
@@ -628,7 +628,7 @@ class LinearRegion(nn.Module):
 
         # Modules without inputs (an OutputSite at the start of the chain) are
         # expanded to the global batch size, so it must match our input
-        Contractable.global_bs = input_data.size(0)
+        Contractable.global_bs.value = input_data.size(0)
 
         # For each module, pull out the number of pixels needed and call that
         # module's forward() method, putting the result in contractable_list
-- 
2.43.0


From 3320834481ed0a10db8a7c6002e7cc85605e5e51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:00 +0000
Subject: [PATCH 05/35] fix: pad sequences of a TI_MPS after embedding them

Unembedded sequences of different lengths were padded before the embedding,
which maps zero to a non-zero vector, so the output of a sequence depended on
the length of the longest sequence in its batch.
---
 torchmps/torchmps.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/torchmps/torchmps.py b/torchmps/torchmps.py
index 7da082a..f318494 100644
--- a/torchmps/torchmps.py
+++ b/torchmps/torchmps.py
@@ -178,11 +178,16 @@ class TI_MPS(nn.Module):
                     f"{self.use_bias}, self.fixed_bias={self.fixed_bias})"
                 )
 
+            # Embed the sequences (if needed), so that padding with zeros leaves
+            # only the bias matrix at padded sites
+            if num_modes == 1:
+                input_data = [self.embed_input(s.unsqueeze(0))[0] for s in input_data]
+
             # Pad the sequences with zeros (if needed), return as batch tensor
             if can_pad:
                 batch_size = len(input_data)
                 full_size = [batch_size, max_len, feature_dim]
-                batch_input = torch.zeros(full_size[: num_modes + 1])
+                batch_input = torch.zeros(full_size)
 
                 # Copy each sequence into batch_input
                 for i, seq in enumerate(input_data):
@@ -190,10 +195,6 @@ class TI_MPS(nn.Module):
             else:
                 batch_input = torch.stack(input_data)
 
-            # Embed everything (if needed) and return the batch tensor
-            if len(batch_input.shape) == 2:
-                batch_input = self.embed_input(batch_input)
-
             return batch_input
 
         else:
-- 
2.43.0


From b0024a81150ce89170fa9d83450e16b8e1acb8ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:00 +0000
Subject: [PATCH 06/35] fix: support models converted with double()

Tensors made during evaluation always had the default dtype, so that MPS with
open boundaries and TI_MPS with raw or listed inputs failed after conversion
to another dtype, and svd_flex mixed dtypes when padding to max_D.
---
 torchmps/torchmps.py | 15 +++++++--------
 torchmps/utils.py    |  6 +++---
 2 files changed, 10 insertions(+), 11 deletions(-)

diff --git a/torchmps/torchmps.py b/torchmps/torchmps.py
index f318494..6ffcdc8 100644
--- a/torchmps/torchmps.py
+++ b/torchmps/torchmps.py
@@ -187,7 +187,7 @@ class TI_MPS(nn.Module):
             if can_pad:
                 batch_size = len(input_data)
                 full_size = [batch_size, max_len, feature_dim]
-                batch_input = torch.zeros(full_size)
+                batch_input = self.core_tensor.new_zeros(full_size)
 
                 # Copy each sequence into batch_input
                 for i, seq in enumerate(input_data):
@@ -240,7 +240,7 @@ class TI_MPS(nn.Module):
                     f"self.feature_dim = {feature_dim}, but "
                     "default feature_map requires self.feature_dim = 2"
                 )
-            embedded_data = torch.empty(embedded_shape)
+            embedded_data = self.core_tensor.new_empty(embedded_shape)
 
             embedded_data[:, :, 0] = input_data
             embedded_data[:, :, 1] = 1 - input_data
@@ -623,10 +623,6 @@ class LinearRegion(nn.Module):
         parallel_eval = self.parallel_eval
         lin_bonds = ["l", "r"]
 
-        # Whether to move intermediate vectors to a GPU (fixes Issue #8)
-        to_cuda = input_data.is_cuda
-        device = f"cuda:{input_data.get_device()}" if to_cuda else "cpu"
-
         # Modules without inputs (an OutputSite at the start of the chain) are
         # expanded to the global batch size, so it must match our input
         Contractable.global_bs.value = input_data.size(0)
@@ -679,8 +675,11 @@ class LinearRegion(nn.Module):
                 item.tensor.size(ind) for (item, ind) in zip(end_items, bond_inds)
             ]
 
-            # Build dummy end vectors and insert them at the ends of our list
-            end_vecs = [torch.zeros(dim).to(device) for dim in bond_dims]
+            # Build dummy end vectors and insert them at the ends of our list.
+            # These get the dtype and device (fixes Issue #8) of our cores
+            end_vecs = [
+                item.tensor.new_zeros(dim) for (item, dim) in zip(end_items, bond_dims)
+            ]
 
             for vec in end_vecs:
                 vec[0] = 1
diff --git a/torchmps/utils.py b/torchmps/utils.py
index 506cba2..e916e0a 100644
--- a/torchmps/utils.py
+++ b/torchmps/utils.py
@@ -93,11 +93,11 @@ def svd_flex(tensor, svd_string, max_D=None, cutoff=1e-10, sv_right=True, sv_vec
             left_mat = left_mat[:, :max_D]
             right_mat = right_mat[:max_D]
         elif max_D and len(svs) < max_D:
-            copy_svs = torch.zeros([max_D])
+            copy_svs = svs.new_zeros([max_D])
             copy_svs[: len(svs)] = svs
-            copy_left = torch.zeros([left_mat.size(0), max_D])
+            copy_left = svs.new_zeros([left_mat.size(0), max_D])
             copy_left[:, : left_mat.size(1)] = left_mat
-            copy_right = torch.zeros([max_D, right_mat.size(1)])
+            copy_right = svs.new_zeros([max_D, right_mat.size(1)])
             copy_right[: right_mat.size(0)] = right_mat
             svs, left_mat, right_mat = copy_svs, copy_left, copy_right
 
-- 
2.43.0


From 869e003168745d879c7bc79d8285b5297ae00047 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:00 +0000
Subject: [PATCH 07/35] fix: rearrange adaptive MPS with input regions of two
 sites

In the second merge state such a region consists of two single sites, which
were not recombined when unmerging, so the next rearrangement failed.
---
 torchmps/torchmps.py | 21 ++++++++-------------
 1 file changed, 8 insertions(+), 13 deletions(-)

diff --git a/torchmps/torchmps.py b/torchmps/torchmps.py
index 6ffcdc8..8910890 100644
--- a/torchmps/torchmps.py
+++ b/torchmps/torchmps.py
@@ -954,21 +954,16 @@ class MergedLinearRegion(LinearRegion):
                 )
             return MergedOutput(new_tensor, left_output=(not left_site))
 
-        # Combine an InputRegion with a stray InputSite, return an InputRegion
-        elif not merging and (
-            (isinstance(left_core, InputRegion) and isinstance(right_core, InputSite))
-            or (
-                isinstance(left_core, InputSite) and isinstance(right_core, InputRegion)
-            )
+        # Combine InputRegions or stray InputSites, return an InputRegion
+        elif not merging and all(
+            isinstance(core, (InputRegion, InputSite))
+            for core in (left_core, right_core)
         ):
 
-            left_site = isinstance(left_core, InputSite)
-            if left_site:
-                left_tensor = left_core.tensor.unsqueeze(0)
-                right_tensor = right_core.tensor
-            else:
-                left_tensor = left_core.tensor
-                right_tensor = right_core.tensor.unsqueeze(0)
+            left_tensor, right_tensor = [
+                core.tensor.unsqueeze(0) if isinstance(core, InputSite) else core.tensor
+                for core in (left_core, right_core)
+            ]
 
             assert left_tensor.shape[1:] == right_tensor.shape[1:]
             new_tensor = torch.cat([left_tensor, right_tensor])
-- 
2.43.0


From 2ee29bbf0a97963bb27674ce653b596162507ae7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:00 +0000
Subject: [PATCH 08/35] fix: build adaptive MPS with a single input

Once its two cores were merged into one, the next merging pass dropped the
only core left.
---
 torchmps/torchmps.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/torchmps/torchmps.py b/torchmps/torchmps.py
index 8910890..3236e98 100644
--- a/torchmps/torchmps.py
+++ b/torchmps/torchmps.py
@@ -824,10 +824,9 @@ class MergedLinearRegion(LinearRegion):
                     mod_num += 2
                     site_num += new_core.core_len()
 
-                # Add the last core if there's nothing to merge it with
-                if mod_num == len(merged_list) - 1:
-                    combined_list.append(merged_list[mod_num])
-                    mod_num += 1
+            # Add the last core if there's nothing to merge it with
+            if mod_num == len(merged_list) - 1:
+                combined_list.append(merged_list[mod_num])
 
             # We're finished when unmerged_list remains unchanged
             if len(combined_list) == len(merged_list):
-- 
2.43.0


From 39e0f40483722f92a613fa25711e19145926e3ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:00 +0000
Subject: [PATCH 09/35] fix: load_HV_data with current NumPy

np.int was removed from NumPy.
---
 torchmps/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/torchmps/utils.py b/torchmps/utils.py
index e916e0a..251ffda 100644
--- a/torchmps/utils.py
+++ b/torchmps/utils.py
@@ -316,7 +316,7 @@ def load_HV_data(length):
         )
 
     images = np.empty([num_images, length, length], dtype=np.float32)
-    labels = np.empty(num_images, dtype=np.int)
+    labels = np.empty(num_images, dtype=int)
 
     # Used to generate the stripe pattern from integer i below
     template = "{:0" + str(length) + "b}"
-- 
2.43.0


From 040715e6617cb045d5594bd60505925a976022d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:00 +0000
Subject: [PATCH 10/35] fix: trigonometric embeddings without SciPy

SciPy is not among the requirements, so trig_embed and sincos_embed failed
in an installation that has just these.
---
 torchmps/embeddings.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/torchmps/embeddings.py b/torchmps/embeddings.py
index 6cd17c8..67cb0e2 100644
--- a/torchmps/embeddings.py
+++ b/torchmps/embeddings.py
@@ -20,7 +20,7 @@
 # CONNECTION WITH THE SOFTWARE OR THE USE OR OTHER DEALINGS IN THE SOFTWARE.
 
 """Uniform and non-uniform probabilistic MPS classes"""
-from math import sqrt, pi
+from math import factorial, sqrt, pi
 from functools import partial
 from typing import Union, Optional, Callable
 
@@ -242,15 +242,14 @@ def trig_embed(data, emb_dim=2):
 
     Written by Raphaëlle Tihon
     """
-    from scipy.special import binom
-
     emb_data = []
     for s in range(emb_dim):
         comp = (
             torch.cos(data * pi / 2) ** (emb_dim - s - 1)
             * torch.sin(data * pi / 2) ** s
         )
-        comp *= sqrt(binom(emb_dim - 1, s))
+        binom = factorial(emb_dim - 1) // (factorial(s) * factorial(emb_dim - s - 1))
+        comp *= sqrt(binom)
         emb_data.append(comp)
     emb_data = torch.stack(emb_data, dim=-1)
     assert emb_data.shape == data.shape + (emb_dim,)
-- 
2.43.0


From 21e49cce3b0485c63ba621895fcd6227294e4846 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:47 +0000
Subject: [PATCH 11/35] fix: register the parameters of trainable embeddings

The embedding module was hidden in a lambda function, so its parameters were
neither returned by parameters() nor saved in the state_dict of the model.
---
 torchmps/embeddings.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/torchmps/embeddings.py b/torchmps/embeddings.py
index 67cb0e2..940d1e7 100644
--- a/torchmps/embeddings.py
+++ b/torchmps/embeddings.py
@@ -88,9 +88,14 @@ class TrainableEmbedding(nn.Module):
 
         # Save defining data
         self.domain = data_domain
+        self.emb_module = emb_fun
+
+    def emb_fun(self, input_data):
+        """
+        Apply the user-specified module to input data
+        """
         # Need to add on singleton dimension to agree with nn.Module format
-        self.emb_fun = lambda x: emb_fun(x[..., None])
-        # self.emb_fun = emb_fun
+        return self.emb_module(input_data[..., None])
 
     def make_lambda(self, num_points: int = 1000):
         """
-- 
2.43.0


From e35bd87ce86254fb56f7e6431e7cd713f4dc04e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:47 +0000
Subject: [PATCH 12/35] fix: normalise trainable embeddings with their current
 parameters

The lambda matrix was only updated when embedding data, so log_norm() failed
before the first evaluation and was outdated after a training step. Storing it
with its autograd graph also made evaluated models impossible to copy.
---
 torchmps/embeddings.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/torchmps/embeddings.py b/torchmps/embeddings.py
index 940d1e7..51b1c3d 100644
--- a/torchmps/embeddings.py
+++ b/torchmps/embeddings.py
@@ -129,21 +129,26 @@ class TrainableEmbedding(nn.Module):
 
         assert lamb_mat.ndim == 2
         assert lamb_mat.shape[0] == lamb_mat.shape[1]
-        self.lamb_mat = lamb_mat
 
         # Check if the computed matrix is diagonal or multiple of the identity
         if torch.allclose(lamb_mat.diag().diag(), lamb_mat):
             lamb_mat = lamb_mat.diag()
             if torch.allclose(lamb_mat.mean(), lamb_mat):
-                self.lamb_mat = lamb_mat.mean()
-            else:
-                self.lamb_mat = lamb_mat
+                lamb_mat = lamb_mat.mean()
+
+        return lamb_mat
+
+    @property
+    def lamb_mat(self):
+        """
+        Lambda matrix for the current parameters of the embedding function
+        """
+        return self.make_lambda()
 
     def forward(self, input_data):
         """
         Embed input data via the user-specified embedding function
         """
-        self.make_lambda()
         return self.emb_fun(input_data)
 
 
-- 
2.43.0


From cf86fdc0ef9cd26d1fa0aeae20d4f15c13717438 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:47 +0000
Subject: [PATCH 13/35] fix: complex models with embeddings that are not
 orthogonal

The lambda matrix of a real embedding was contracted with complex cores, which
fails for different dtypes whenever the matrix isn't just a scalar.
---
 torchmps/mps_base.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/torchmps/mps_base.py b/torchmps/mps_base.py
index 849bdde..9ad532d 100644
--- a/torchmps/mps_base.py
+++ b/torchmps/mps_base.py
@@ -432,6 +432,10 @@ def get_log_norm(
     left_vec, r_vec = boundary_vecs
     dens_mat = left_vec[:, None] @ left_vec[None, :].conj()
     log_norm = torch.zeros(())
+    if lamb_mat is not None:
+        # The lambda matrix must have the same dtype (real, complex) as the core
+        dtype = torch.promote_types(lamb_mat.dtype, core_tensor.dtype)
+        lamb_mat = lamb_mat.to(dtype)
     if uniform and fixed_len:
         core_tensor = (core_tensor,) * length
 
-- 
2.43.0


From 71827f755600d2e44fa184ca26d427e2a3c900f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:47 +0000
Subject: [PATCH 14/35] fix: judge imaginary parts relative to the size of the
 tensor

realify compared rounding errors to an absolute threshold, so that the log
norm of complex models failed when their parameters were large.
---
 torchmps/utils2.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/torchmps/utils2.py b/torchmps/utils2.py
index a3fb72b..7c675ce 100644
--- a/torchmps/utils2.py
+++ b/torchmps/utils2.py
@@ -183,7 +183,7 @@ def realify(tensor: Tensor) -> Tensor:
     Input must be approximately real, `realify` will raise error if not
     """
     if tensor.is_complex():
-        assert torch.allclose(tensor.imag, torch.zeros(()), atol=1e-4)
+        assert torch.all(tensor.imag.abs() <= 1e-4 * tensor.abs().clamp(min=1))
         return tensor.real
     else:
         return tensor
-- 
2.43.0


From d843fa362683524ee0d26a74d87365c352bc7dfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:35 +0000
Subject: [PATCH 15/35] fix: log norm with right boundary vectors of any size

For complex models the imaginary rounding error of the final contraction was
compared with an absolute bound, which failed when the boundary vector was large.
---
 torchmps/mps_base.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/torchmps/mps_base.py b/torchmps/mps_base.py
index 9ad532d..f739557 100644
--- a/torchmps/mps_base.py
+++ b/torchmps/mps_base.py
@@ -472,8 +472,12 @@ def get_log_norm(
         for core in core_tensor:
             dens_mat, log_norm = transfer_op(core, dens_mat, log_norm)
 
+        # Rescale the right boundary vector first, so that the check in realify
+        # doesn't depend on its magnitude
+        r_scale = r_vec.detach().abs().sum().clamp(min=1e-30)
+        r_vec = r_vec / r_scale
         correction = einsum("r,rq,q->", r_vec, dens_mat, r_vec.conj())
-        return log_norm + torch.log(realify(correction))
+        return log_norm + torch.log(realify(correction)) + 2 * torch.log(r_scale)
     else:
         raise NotImplementedError
 
-- 
2.43.0


From dfef29c57bc3489a53e02f5c83b6c7bd107dfec4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:35 +0000
Subject: [PATCH 16/35] fix: contractions whose value is exactly zero

The rescaling of intermediate products divided zero by zero, so that sequences
of probability zero gave NaN rather than a log probability of minus infinity.
---
 torchmps/mps_base.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/torchmps/mps_base.py b/torchmps/mps_base.py
index f739557..2c68177 100644
--- a/torchmps/mps_base.py
+++ b/torchmps/mps_base.py
@@ -42,6 +42,13 @@ from torchmps.utils2 import (
 TensorSeq = Union[Tensor, Sequence[Tensor]]
 
 
+def nonzero_scale(scale: Tensor) -> Tensor:
+    """
+    Replace vanishing scale factors by one, so products of zero remain zero
+    """
+    return torch.where(scale == 0, torch.ones_like(scale), scale)
+
+
 def slim_eval_fun(seq_input: Tensor, core_tensor: Tensor, bound_vecs: Tensor) -> Tensor:
     r"""
     Evaluate MPS tensor elements relative to a batch of sequential inputs.
@@ -105,7 +112,7 @@ def slim_eval_fun(seq_input: Tensor, core_tensor: Tensor, bound_vecs: Tensor) ->
         vecs = torch.matmul(vecs, mats)
 
         # Rescale vectors, update log_scale
-        rescale = vecs.abs().sum(dim=-1, keepdim=True) / bond_dim
+        rescale = nonzero_scale(vecs.abs().sum(dim=-1, keepdim=True) / bond_dim)
         log_scale = log_scale + rescale.log()[:, 0, 0]
         vecs = vecs / rescale
 
@@ -293,6 +300,7 @@ def mat_reduce_par(matrices: Tensor) -> Tuple[Tensor, Tensor]:
 
         # Rescale matrices and update log_scale
         rescales = matrices.abs().sum(dim=(-2, -1), keepdim=True) / bond_dim
+        rescales = nonzero_scale(rescales)
         log_scale = log_scale + rescales.log().sum(dim=-3)
         matrices = matrices / rescales
 
@@ -326,6 +334,7 @@ def mat_reduce_seq(matrices: Sequence[Tensor]) -> Tensor:
         # Rescale and update the log scale factor
         target_norm = sqrt(product.shape[-2] * product.shape[-1])
         rescale = product.abs().sum(dim=(-2, -1), keepdim=True) / target_norm
+        rescale = nonzero_scale(rescale)
         log_scale = log_scale + torch.log(rescale)
         product = product / rescale
 
@@ -454,7 +463,7 @@ def get_log_norm(
     def transfer_op(core_t, d_mat, l_norm, l_sum=None):
         # Update density operator, rescale to have unit trace
         d_mat = t_op(d_mat, core_t)
-        trace = hermitian_trace(d_mat)
+        trace = nonzero_scale(hermitian_trace(d_mat))
         l_norm = l_norm + torch.log(trace)
         d_mat = d_mat / trace
 
-- 
2.43.0


From 2185a96ab156a2f2ee1ab284ca69133af7e30966 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:35 +0000
Subject: [PATCH 17/35] fix: slim evaluation of empty sequences in batches of
 any size

---
 torchmps/mps_base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/torchmps/mps_base.py b/torchmps/mps_base.py
index 2c68177..624ed79 100644
--- a/torchmps/mps_base.py
+++ b/torchmps/mps_base.py
@@ -106,7 +106,7 @@ def slim_eval_fun(seq_input: Tensor, core_tensor: Tensor, bound_vecs: Tensor) ->
 
     # Process input sequentially, from left to right
     log_scale = torch.zeros(batch)
-    vecs = bound_vecs[0][None, None]
+    vecs = bound_vecs[0].expand(batch, 1, bond_dim)
     for inps, core in zip(seq_input, all_cores):
         mats = slice_fun(inps, core)
         vecs = torch.matmul(vecs, mats)
-- 
2.43.0


From 66e3435541bbe79610e8a92aae2999720ffee572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:35 +0000
Subject: [PATCH 18/35] fix: parallel_eval overrides slim_eval, as documented

---
 torchmps/prob_mps.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/torchmps/prob_mps.py b/torchmps/prob_mps.py
index 9f840d8..89a70d9 100644
--- a/torchmps/prob_mps.py
+++ b/torchmps/prob_mps.py
@@ -171,7 +171,7 @@ class ProbMPS(nn.Module):
         if self.embedding is not None:
             input_data = self.embedding(input_data)
 
-        if slim_eval:
+        if slim_eval and not parallel_eval:
             if self.use_bias:
                 raise ValueError("Bias matrices not supported for slim_eval")
             psi_vals, log_scales = slim_eval_fun(
@@ -399,7 +399,7 @@ class ProbUnifMPS(ProbMPS):
         if self.embedding is not None:
             input_data = self.embedding(input_data)
 
-        if slim_eval:
+        if slim_eval and not parallel_eval:
             if self.use_bias:
                 raise ValueError("Bias matrices not supported for slim_eval")
             psi_vals, log_scales = slim_eval_fun(
-- 
2.43.0


From d07b76cfb3bfa2e439198d2c86982bea4d4d52d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:35 +0000
Subject: [PATCH 19/35] fix: normalisation of biased models with embedded
 inputs

The log norm adds the bias to every core slice, whereas evaluation added it to
the contracted matrices. These differ for vectors which do not sum to one, and
the probabilities of an embedded biased model were not normalised.
---
 torchmps/prob_mps.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/torchmps/prob_mps.py b/torchmps/prob_mps.py
index 89a70d9..3984b82 100644
--- a/torchmps/prob_mps.py
+++ b/torchmps/prob_mps.py
@@ -178,10 +178,11 @@ class ProbMPS(nn.Module):
                 input_data, self.core_tensors, self.edge_vecs
             )
         else:
-            # Contract inputs with core tensors and add bias matrices
-            mat_slices = get_mat_slices(input_data, self.core_tensors)
+            # Add bias matrices to core tensors and contract with inputs
+            core_tensors = self.core_tensors
             if self.use_bias:
-                mat_slices = mat_slices + self.bias_mat[None, None]
+                core_tensors = core_tensors + self.bias_mat[None, None]
+            mat_slices = get_mat_slices(input_data, core_tensors)
 
             #  Contract all bond dims to get (unnormalized) prob amplitudes
             psi_vals, log_scales = contract_matseq(
@@ -406,10 +407,11 @@ class ProbUnifMPS(ProbMPS):
                 input_data, self.core_tensors, self.edge_vecs
             )
         else:
-            # Contract inputs with core tensors and add bias matrices
-            mat_slices = get_mat_slices(input_data, self.core_tensors)
+            # Add bias matrices to core tensors and contract with inputs
+            core_tensors = self.core_tensors
             if self.use_bias:
-                mat_slices = mat_slices + self.bias_mat[None]
+                core_tensors = core_tensors + self.bias_mat[None]
+            mat_slices = get_mat_slices(input_data, core_tensors)
 
             #  Contract all bond dims to get (unnormalized) prob amplitudes
             psi_vals, log_scales = contract_matseq(
-- 
2.43.0


From 9194a5fb0f1277717a061759ab3c7e34c377ce6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:35 +0000
Subject: [PATCH 20/35] fix: lambda matrices with small elements

Elements below an absolute threshold of 1e-8 were dropped or averaged, whatever
the size of the lambda matrix.
---
 torchmps/embeddings.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/torchmps/embeddings.py b/torchmps/embeddings.py
index 51b1c3d..c205ad1 100644
--- a/torchmps/embeddings.py
+++ b/torchmps/embeddings.py
@@ -131,9 +131,10 @@ class TrainableEmbedding(nn.Module):
         assert lamb_mat.shape[0] == lamb_mat.shape[1]
 
         # Check if the computed matrix is diagonal or multiple of the identity
-        if torch.allclose(lamb_mat.diag().diag(), lamb_mat):
+        atol = 1e-8 * lamb_mat.abs().max().item()
+        if torch.allclose(lamb_mat.diag().diag(), lamb_mat, atol=atol):
             lamb_mat = lamb_mat.diag()
-            if torch.allclose(lamb_mat.mean(), lamb_mat):
+            if torch.allclose(lamb_mat.mean(), lamb_mat, atol=atol):
                 lamb_mat = lamb_mat.mean()
 
         return lamb_mat
@@ -210,9 +211,10 @@ class FixedEmbedding(nn.Module):
         self.lamb_mat = lamb_mat
 
         # Check if the computed matrix is diagonal or multiple of the identity
-        if torch.allclose(lamb_mat.diag().diag(), lamb_mat):
+        atol = 1e-8 * lamb_mat.abs().max().item()
+        if torch.allclose(lamb_mat.diag().diag(), lamb_mat, atol=atol):
             lamb_mat = lamb_mat.diag()
-            if torch.allclose(lamb_mat.mean(), lamb_mat):
+            if torch.allclose(lamb_mat.mean(), lamb_mat, atol=atol):
                 self.lamb_mat = lamb_mat.mean()
             else:
                 self.lamb_mat = lamb_mat
-- 
2.43.0


From 6c294d9bf4de8a70e9ee39ef27499a06d8dde782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:35 +0000
Subject: [PATCH 21/35] fix: honour rel_std in normal_init

---
 torchmps/mps_base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/torchmps/mps_base.py b/torchmps/mps_base.py
index 624ed79..250ec24 100644
--- a/torchmps/mps_base.py
+++ b/torchmps/mps_base.py
@@ -569,7 +569,7 @@ def normal_init(shape: tuple, is_complex: bool = False, rel_std: float = 1.0) ->
             )
 
     # Initialize core using size-adjusted value of variance
-    std = 1 / shape[-1]
+    std = rel_std / shape[-1]
     core_tensor = std * torch.randn(shape)
     if is_complex:
         core_tensor = phaseify(core_tensor)
-- 
2.43.0


From 9c25da29d7b281121394d36ffeb4b730be58b964 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:42 +0000
Subject: [PATCH 22/35] fix: cap min_random_eye for cores with unequal bond
 dimensions

---
 torchmps/utils.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/torchmps/utils.py b/torchmps/utils.py
index 251ffda..fbc79fc 100644
--- a/torchmps/utils.py
+++ b/torchmps/utils.py
@@ -219,10 +219,8 @@ def init_tensor(shape, bond_str, init_method):
             # The dimensions for our initial identity matrix. These will each
             # be init_dim, unless init_dim exceeds one of the bond dimensions
             bond_dims = [shape[bond_str.index(c)] for c in bond_chars]
-            if all([init_dim <= full_dim for full_dim in bond_dims]):
-                bond_dims = [init_dim, init_dim]
-            else:
-                init_dim = min(bond_dims)
+            init_dim = min([init_dim] + bond_dims)
+            bond_dims = [init_dim, init_dim]
 
             eye_shape = [init_dim if c in bond_chars else 1 for c in bond_str]
             expand_shape = [
-- 
2.43.0


From 98b89725883336151982a9d27ae5eeba25c4d281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:42 +0000
Subject: [PATCH 23/35] fix: batch_to refuses tensors with incompatible batch
 indices

Where the tensor had a larger batch shape than the one requested, it was
returned with its own batch shape instead.
---
 torchmps/utils2.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/torchmps/utils2.py b/torchmps/utils2.py
index 7c675ce..f04c326 100644
--- a/torchmps/utils2.py
+++ b/torchmps/utils2.py
@@ -72,7 +72,12 @@ def batch_to(tensor: Tensor, batch_shape: tuple, num_nonbatch: int):
         out_tensor: Broadcasted version of input tensor.
     """
     batch_ref = torch.empty(batch_shape)
-    out_tensor, _ = batch_broadcast((tensor, batch_ref), (num_nonbatch, 0))
+    out_tensor, out_ref = batch_broadcast((tensor, batch_ref), (num_nonbatch, 0))
+    if out_ref.shape != batch_ref.shape:
+        raise ValueError(
+            f"Batch indices of tensor with shape {tuple(tensor.shape)} can't be "
+            f"expanded to shape {tuple(batch_shape)}"
+        )
     return out_tensor
 
 
-- 
2.43.0


From e98853286ba6e47deb4a91ff81e8ef878806dbd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:42 +0000
Subject: [PATCH 24/35] fix: refuse sequences of the wrong length in
 get_mat_slices

Discrete sequences shorter than the model were evaluated with its first cores.
---
 torchmps/mps_base.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/torchmps/mps_base.py b/torchmps/mps_base.py
index 250ec24..9cf22e9 100644
--- a/torchmps/mps_base.py
+++ b/torchmps/mps_base.py
@@ -367,6 +367,7 @@ def get_mat_slices(seq_input: Tensor, core_tensor: Tensor) -> Tensor:
     uniform = core_tensor.ndim == 3
     input_dim, bond_dim = core_tensor.shape[-3:-1]
     seq_len = seq_input.shape[1]
+    assert uniform or len(core_tensor) == seq_len
 
     # TODO: Deal with packing if/when we have variable-len sequences,
     #       likely using pad_mat_slices function
-- 
2.43.0


From 73a07adf94221086c8ed6a71704137a8ec83849f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:42 +0000
Subject: [PATCH 25/35] fix: products of scalars with edge vectors and output
 matrices

Scalars without a batch index were also refused, although documented.
---
 torchmps/contractables.py | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/torchmps/contractables.py b/torchmps/contractables.py
index a47041b..3c40435 100644
--- a/torchmps/contractables.py
+++ b/torchmps/contractables.py
@@ -1,4 +1,5 @@
 import threading
+from copy import copy
 
 import torch
 
@@ -380,7 +381,7 @@ class OutputMat(Contractable):
         Multiply with an edge vector along the shared linear index
         """
         if not isinstance(edge_vec, EdgeVec):
-            raise NotImplemented  # noqa: F901
+            return NotImplemented
         else:
             return super().__mul__(edge_vec, rmul)
 
@@ -437,9 +438,9 @@ class Scalar(Contractable):
     def __init__(self, scalar):
         # Add dummy dimension if we have a torch scalar
         shape = list(scalar.shape)
-        if shape is []:
-            scalar = scalar.view([1])
-            shape = [1]
+        if shape == []:
+            shape = [Contractable.global_bs.value or 1]
+            scalar = scalar.expand(shape)
 
         # Check the input shape
         if len(shape) != 1:
@@ -455,6 +456,10 @@ class Scalar(Contractable):
         """
         Multiply a contractable by our scalar and return the result
         """
+        # Composite contractables multiply by their items one at a time
+        if not hasattr(contractable, "tensor"):
+            return NotImplemented
+
         scalar = self.tensor
         tensor = contractable.tensor
         bond_str = contractable.bond_str
@@ -462,12 +467,10 @@ class Scalar(Contractable):
         ein_string = f"{bond_str},b->{bond_str}"
         out_tensor = torch.einsum(ein_string, [tensor, scalar])
 
-        # Wrap the result in the same class right_contractable belongs to
-        contract_class = type(contractable)
-        if contract_class is not Contractable:
-            return contract_class(out_tensor)
-        else:
-            return Contractable(out_tensor, bond_str)
+        # Wrap the result in the same class contractable belongs to
+        output = copy(contractable)
+        output.tensor = out_tensor
+        return output
 
     def __rmul__(self, contractable):
         # Scalar multiplication is commutative
-- 
2.43.0


From 2b160354c59d3233bf55fb03aa664a511f70f280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:42 +0000
Subject: [PATCH 26/35] fix: products of a contractable with a ContractableList

These multiplied by a bare tensor, and in the wrong order.
---
 torchmps/contractables.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/torchmps/contractables.py b/torchmps/contractables.py
index 3c40435..9178224 100644
--- a/torchmps/contractables.py
+++ b/torchmps/contractables.py
@@ -184,7 +184,7 @@ class ContractableList(Contractable):
 
     def __init__(self, contractable_list):
         # Check that input list is nonempty and has contractables as entries
-        if not isinstance(contractable_list, list) or contractable_list is []:
+        if not isinstance(contractable_list, list) or contractable_list == []:
             raise ValueError("Input to ContractableList must be nonempty list")
         for i, item in enumerate(contractable_list):
             if not isinstance(item, Contractable):
@@ -201,15 +201,15 @@ class ContractableList(Contractable):
         """
         # The input cannot be a composite contractable
         assert hasattr(contractable, "tensor")
-        output = contractable.tensor
+        output = contractable
 
         # Multiply by everything in ContractableList, in the correct order
         if rmul:
             for item in self.contractable_list:
-                output = item * output
+                output = output * item
         else:
             for item in self.contractable_list[::-1]:
-                output = output * item
+                output = item * output
 
         return output
 
-- 
2.43.0


From 36e31d7f33924d89327b4ed616e7d7481aaf39ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:42 +0000
Subject: [PATCH 27/35] fix: load checkpoints of adaptive MPS in either merge
 state

A model always expected the checkpoint to have the same active module list as
itself, so that those saved after an odd number of shifts could not be loaded.
---
 torchmps/torchmps.py | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/torchmps/torchmps.py b/torchmps/torchmps.py
index 3236e98..fbb192b 100644
--- a/torchmps/torchmps.py
+++ b/torchmps/torchmps.py
@@ -973,6 +973,31 @@ class MergedLinearRegion(LinearRegion):
         else:
             return None
 
+    def _load_from_state_dict(self, state_dict, prefix, *args, **kwargs):
+        """
+        Take on the merge state of the model whose state_dict is being loaded
+
+        The entries of module_list are saved along with those of both merged
+        module lists, so the active one is the one that they agree with
+        """
+
+        def saved_tensors(name):
+            start = f"{prefix}{name}."
+            items = [(k, v) for k, v in state_dict.items() if k.startswith(start)]
+            return {key[len(start) :]: value for key, value in items}
+
+        active = saved_tensors("module_list")
+        for offset in [self.offset, (self.offset + 1) % 2]:
+            merged = saved_tensors(f"module_list_{offset}")
+            if merged.keys() == active.keys() and all(
+                torch.equal(merged[key], active[key]) for key in merged
+            ):
+                self.offset = offset
+                self.module_list = getattr(self, f"module_list_{offset}")
+                break
+
+        super()._load_from_state_dict(state_dict, prefix, *args, **kwargs)
+
     def core_len(self):
         """
         Returns the number of cores, which is at least the required input size
-- 
2.43.0


From bf88b043fed9268952c3fac4f26be83ae284b974 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:44 +0000
Subject: [PATCH 28/35] fix: replace a feature map which is a Module by a
 function

---
 torchmps/torchmps.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/torchmps/torchmps.py b/torchmps/torchmps.py
index fbb192b..0adce9c 100644
--- a/torchmps/torchmps.py
+++ b/torchmps/torchmps.py
@@ -272,6 +272,9 @@ class TI_MPS(nn.Module):
                     f"values of size {list(needed_shape)}"
                 )
 
+        # A feature map which is a Module is registered as a submodule, which
+        # has to be removed before anything else can take its place
+        del self.feature_map
         self.feature_map = feature_map
 
 
@@ -569,6 +572,9 @@ class MPS(nn.Module):
                     f"values of size {list(needed_shape)}"
                 )
 
+        # A feature map which is a Module is registered as a submodule, which
+        # has to be removed before anything else can take its place
+        del self.feature_map
         self.feature_map = feature_map
 
     def core_len(self):
-- 
2.43.0


From 143af755650200a22da7b6fe58d43a153cb263bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:23 +0000
Subject: [PATCH 29/35] fix: contract trainable boundary vectors without any
 matrices

---
 torchmps/mps_base.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/torchmps/mps_base.py b/torchmps/mps_base.py
index 9cf22e9..a7faaf3 100644
--- a/torchmps/mps_base.py
+++ b/torchmps/mps_base.py
@@ -240,11 +240,11 @@ def contract_matseq(
 
     # Strip away dummy indices
     if real_vec[0]:
-        product.squeeze_(-2)
-        log_scale.squeeze_(-2)
+        product = product.squeeze(-2)
+        log_scale = log_scale.squeeze(-2)
     if real_vec[1]:
-        product.squeeze_(-1)
-        log_scale.squeeze_(-1)
+        product = product.squeeze(-1)
+        log_scale = log_scale.squeeze(-1)
 
     if log_format:
         return product, log_scale
-- 
2.43.0


From f9ff01b2c0350512c6c72c9375fe4af285986977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:33 +0000
Subject: [PATCH 30/35] fix: random_eye initialisation with the right bond
 first

---
 torchmps/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/torchmps/utils.py b/torchmps/utils.py
index fbc79fc..15aa5d7 100644
--- a/torchmps/utils.py
+++ b/torchmps/utils.py
@@ -233,7 +233,8 @@ def init_tensor(shape, bond_str, init_method):
                 shape[i] if c in bond_chars else 1 for i, c in enumerate(bond_str)
             ]
             expand_shape = shape
-            bond_dims = [shape[bond_str.index(c)] for c in bond_chars]
+            # In the order in which the bond indices appear in our tensor
+            bond_dims = [shape[i] for i, c in enumerate(bond_str) if c in bond_chars]
 
         eye_tensor = torch.eye(bond_dims[0], bond_dims[1]).view(eye_shape)
         eye_tensor = eye_tensor.expand(expand_shape)
-- 
2.43.0


From ed1d9cf301f2181b91e6b8bd68bcee90d06b643e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:43 +0000
Subject: [PATCH 31/35] fix: trainable embeddings converted with double()

The points at which a continuous embedding is integrated always had the default
dtype, so that evaluating a converted model failed.
---
 torchmps/embeddings.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/torchmps/embeddings.py b/torchmps/embeddings.py
index c205ad1..aafbcf7 100644
--- a/torchmps/embeddings.py
+++ b/torchmps/embeddings.py
@@ -103,8 +103,14 @@ class TrainableEmbedding(nn.Module):
         """
         # Compute the raw lambda matrix, computing number of points if needed
         if self.domain.continuous:
+            # Use the precision of the module, which might not be the default one
+            params = [p for p in self.parameters() if p.is_floating_point()]
             points = torch.linspace(
-                self.domain.min_val, self.domain.max_val, steps=num_points
+                self.domain.min_val,
+                self.domain.max_val,
+                steps=num_points,
+                dtype=params[0].dtype if params else None,
+                device=params[0].device if params else None,
             )
             self.num_points = num_points
             emb_vecs = self.emb_fun(points)
-- 
2.43.0


From ae81ac768964ea69ec7fb50c82cda6cf5075b0c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:10 +0000
Subject: [PATCH 32/35] fix: refuse vectors of dimension one and masks as
 inputs

Vector inputs of dimension one were broadcast against larger input dimensions
by get_mat_slices, and inputs of type bool or uint8 were taken as masks, which
slim_eval_fun silently evaluated when the batch size equals the input dimension.
---
 torchmps/mps_base.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/torchmps/mps_base.py b/torchmps/mps_base.py
index a7faaf3..55962ee 100644
--- a/torchmps/mps_base.py
+++ b/torchmps/mps_base.py
@@ -89,6 +89,9 @@ def slim_eval_fun(seq_input: Tensor, core_tensor: Tensor, bound_vecs: Tensor) ->
         assert len(core_tensor) == seq_len
     if vec_input:
         assert seq_input.shape[-1] == core_tensor.shape[-3]
+    else:
+        # These would be treated as masks rather than as indices
+        assert seq_input.dtype not in (torch.bool, torch.uint8)
 
     # Promote seq_input to complex dtype if core_tensor is complex
     if core_tensor.is_complex() and seq_input.is_floating_point():
@@ -368,6 +371,12 @@ def get_mat_slices(seq_input: Tensor, core_tensor: Tensor) -> Tensor:
     input_dim, bond_dim = core_tensor.shape[-3:-1]
     seq_len = seq_input.shape[1]
     assert uniform or len(core_tensor) == seq_len
+    if indexing:
+        # These would be treated as masks rather than as indices
+        assert seq_input.dtype not in (torch.bool, torch.uint8)
+    else:
+        # Vectors of dimension one would be broadcast
+        assert seq_input.shape[2] == input_dim
 
     # TODO: Deal with packing if/when we have variable-len sequences,
     #       likely using pad_mat_slices function
-- 
2.43.0


From b8acbc5835f810d4330ecb7249c5a7b9d25436e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:10 +0000
Subject: [PATCH 33/35] fix: rescale factors before multiplying them, so that
 extreme scales neither overflow nor underflow

Two factors of 1e25 in single precision (1e180 in double precision) gave NaN
in log format, and log probabilities of models with such parameters failed an
assertion, since products and squares were only rescaled after being formed.
---
 torchmps/mps_base.py | 53 ++++++++++++++++++++++++++------------------
 1 file changed, 32 insertions(+), 21 deletions(-)

diff --git a/torchmps/mps_base.py b/torchmps/mps_base.py
index 55962ee..994fe9d 100644
--- a/torchmps/mps_base.py
+++ b/torchmps/mps_base.py
@@ -110,14 +110,18 @@ def slim_eval_fun(seq_input: Tensor, core_tensor: Tensor, bound_vecs: Tensor) ->
     # Process input sequentially, from left to right
     log_scale = torch.zeros(batch)
     vecs = bound_vecs[0].expand(batch, 1, bond_dim)
-    for inps, core in zip(seq_input, all_cores):
-        mats = slice_fun(inps, core)
-        vecs = torch.matmul(vecs, mats)
 
+    def rescale_vecs(vecs, log_scale):
         # Rescale vectors, update log_scale
         rescale = nonzero_scale(vecs.abs().sum(dim=-1, keepdim=True) / bond_dim)
-        log_scale = log_scale + rescale.log()[:, 0, 0]
-        vecs = vecs / rescale
+        return vecs / rescale, log_scale + rescale.log()[:, 0, 0]
+
+    # Rescaling comes before each product, which could overflow otherwise
+    for inps, core in zip(seq_input, all_cores):
+        vecs, log_scale = rescale_vecs(vecs, log_scale)
+        mats = slice_fun(inps, core)
+        vecs = torch.matmul(vecs, mats)
+    vecs, log_scale = rescale_vecs(vecs, log_scale)
 
     # Contract with the right boundary vector, return result
     contraction = torch.matmul(vecs.squeeze(dim=1), bound_vecs[1][:, None])
@@ -217,10 +221,13 @@ def contract_matseq(
         product, log_scale = mat_reduce_par(matrices)
 
         # Contract with boundary vectors, using intermediate dummy axes
+        factors = [product]
         if real_vec[0]:
-            product = torch.matmul(bnd_vecs[0][..., None, :], product)
+            factors = [bnd_vecs[0][..., None, :]] + factors
         if real_vec[1]:
-            product = torch.matmul(product, bnd_vecs[1][..., None])
+            factors.append(bnd_vecs[1][..., None])
+        product, edge_scale = mat_reduce_seq(factors)
+        log_scale = log_scale + edge_scale
 
     else:
         if num_vecs == 0 and len(matrices) == 0:
@@ -291,6 +298,12 @@ def mat_reduce_par(matrices: Tensor) -> Tuple[Tensor, Tensor]:
         half_n = n_mats // 2
         floor_n = half_n * 2
 
+        # Rescale matrices and update log_scale, before products can overflow
+        rescales = matrices.abs().sum(dim=(-2, -1), keepdim=True) / bond_dim
+        rescales = nonzero_scale(rescales)
+        log_scale = log_scale + rescales.log().sum(dim=-3)
+        matrices = matrices / rescales
+
         # Split matrices up into even and odd numbers (maybe w/ leftover)
         even_mats = matrices[..., 0:floor_n:2, :, :]
         odd_mats = matrices[..., 1:floor_n:2, :, :]
@@ -301,12 +314,6 @@ def mat_reduce_par(matrices: Tensor) -> Tuple[Tensor, Tensor]:
         matrices = torch.cat((matrices, leftover), dim=s_dim)
         n_mats = matrices.shape[s_dim]
 
-        # Rescale matrices and update log_scale
-        rescales = matrices.abs().sum(dim=(-2, -1), keepdim=True) / bond_dim
-        rescales = nonzero_scale(rescales)
-        log_scale = log_scale + rescales.log().sum(dim=-3)
-        matrices = matrices / rescales
-
     return matrices.squeeze(dim=s_dim), log_scale
 
 
@@ -332,15 +339,15 @@ def mat_reduce_seq(matrices: Sequence[Tensor]) -> Tensor:
     product, matrices = matrices[0], matrices[1:]
     log_scale = torch.zeros(product.shape[:-2])[..., None, None]
     for mat in matrices:
-        product = torch.matmul(product, mat)
-
-        # Rescale and update the log scale factor
-        target_norm = sqrt(product.shape[-2] * product.shape[-1])
+        # Rescale and update the log scale factor, before the product can overflow
+        target_norm = max(1, sqrt(product.shape[-2] * product.shape[-1]))
         rescale = product.abs().sum(dim=(-2, -1), keepdim=True) / target_norm
         rescale = nonzero_scale(rescale)
         log_scale = log_scale + torch.log(rescale)
         product = product / rescale
 
+        product = torch.matmul(product, mat)
+
     # Revert to original form before returning
     product = product.transpose(-2, -1) if r2l else product
     return product, log_scale
@@ -448,9 +455,12 @@ def get_log_norm(
 
     # Initialize all variables needed for log norm calculation
     uniform = core_tensor.ndim == 3
+    # (parameters are rescaled first, since their squares could overflow)
     left_vec, r_vec = boundary_vecs
+    l_scale = nonzero_scale(left_vec.detach().abs().sum())
+    left_vec = left_vec / l_scale
     dens_mat = left_vec[:, None] @ left_vec[None, :].conj()
-    log_norm = torch.zeros(())
+    log_norm = 2 * torch.log(l_scale)
     if lamb_mat is not None:
         # The lambda matrix must have the same dtype (real, complex) as the core
         dtype = torch.promote_types(lamb_mat.dtype, core_tensor.dtype)
@@ -472,9 +482,10 @@ def get_log_norm(
     # Function for applying rightward transfer operator to density mat
     def transfer_op(core_t, d_mat, l_norm, l_sum=None):
         # Update density operator, rescale to have unit trace
-        d_mat = t_op(d_mat, core_t)
+        c_scale = nonzero_scale(core_t.detach().abs().max())
+        d_mat = t_op(d_mat, core_t / c_scale)
         trace = nonzero_scale(hermitian_trace(d_mat))
-        l_norm = l_norm + torch.log(trace)
+        l_norm = l_norm + torch.log(trace) + 2 * torch.log(c_scale)
         d_mat = d_mat / trace
 
         if fixed_len:
@@ -493,7 +504,7 @@ def get_log_norm(
 
         # Rescale the right boundary vector first, so that the check in realify
         # doesn't depend on its magnitude
-        r_scale = r_vec.detach().abs().sum().clamp(min=1e-30)
+        r_scale = nonzero_scale(r_vec.detach().abs().sum())
         r_vec = r_vec / r_scale
         correction = einsum("r,rq,q->", r_vec, dens_mat, r_vec.conj())
         return log_norm + torch.log(realify(correction)) + 2 * torch.log(r_scale)
-- 
2.43.0


From 94274a4dd3ed6ed95106d936b9b87f6f8ba473fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:15:29 +0000
Subject: [PATCH 34/35] fix: keep an adaptive MPS finite when a core that
 vanishes is rearranged

---
 torchmps/torchmps.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/torchmps/torchmps.py b/torchmps/torchmps.py
index 0adce9c..cd97e95 100644
--- a/torchmps/torchmps.py
+++ b/torchmps/torchmps.py
@@ -923,10 +923,12 @@ class MergedLinearRegion(LinearRegion):
         log_scale = sum([sum(ns) for ns in log_norms])
         log_scale /= sum([len(ns) for ns in log_norms])
 
-        # Now rescale all cores so that their norms are roughly equal
-        scales = [[torch.exp(log_scale - n) for n in ns] for ns in log_norms]
-        for core, these_scales in zip(unmerged_list, scales):
-            core.rescale_norm(these_scales)
+        # Now rescale all cores so that their norms are roughly equal, which
+        # is impossible (but also needless) when one of the cores is zero
+        if log_scale.isfinite():
+            scales = [[torch.exp(log_scale - n) for n in ns] for ns in log_norms]
+            for core, these_scales in zip(unmerged_list, scales):
+                core.rescale_norm(these_scales)
 
         # Add our unmerged module list as a new attribute and return
         # the updated bond dimensions
-- 
2.43.0


From 8dc86a24393fc9dd88fbc1393367a90d2c34d9a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:24:49 +0000
Subject: [PATCH 35/35] fix: leave an adaptive MPS as it was when it refuses an
 input of another type

---
 torchmps/torchmps.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/torchmps/torchmps.py b/torchmps/torchmps.py
index cd97e95..67a0048 100644
--- a/torchmps/torchmps.py
+++ b/torchmps/torchmps.py
@@ -754,6 +754,13 @@ class MergedLinearRegion(LinearRegion):
         """
         # If we've hit our threshold, flip the merge state of our tensors
         if self.input_counter >= self.merge_threshold:
+            # Inputs which the rearranged cores can't be contracted with (which
+            # the first one tells) have to be refused before any changes
+            next_list = getattr(self, f"module_list_{(self.offset + 1) % 2}")
+            next_region = LinearRegion(list(next_list), self.periodic_bc)
+            with torch.no_grad():
+                next_region(input_data[:1])
+
             bond_list, sv_list = self._unmerge(cutoff=self.cutoff)
             self.offset = (self.offset + 1) % 2
             self._merge(offset=self.offset)
@@ -764,9 +771,9 @@ class MergedLinearRegion(LinearRegion):
         else:
             bond_list, sv_list = None, None
 
-        # Increment our counter and call the LinearRegion's forward method
-        self.input_counter += input_data.size(0)
+        # Call the LinearRegion's forward method and increment our counter
         output = super().forward(input_data)
+        self.input_counter += input_data.size(0)
 
         # If we flipped our merge state, then return the bond_list and output
         if bond_list:
-- 
2.43.0

