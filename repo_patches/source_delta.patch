From f15cdafa7f21895086af4eedbc305af985e4a162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:56 +0000
Subject: [PATCH 01/36] fix: forward passes no longer use the batch size of
 earlier or concurrent calls

OutputSite and the edge vectors/matrices were expanded with the process-wide
Contractable.global_bs. With label_site=0 the output core is built before any
input was seen, so the first call of a process raised, and a later one used the
batch size of whatever model was called last (a batch of 1 silently gave as many
rows as the previous batch). Concurrent calls could mix up their batch sizes.
---
 torchmps/torchmps.py | 30 +++++++++++++++++++++---------
 1 file changed, 21 insertions(+), 9 deletions(-)

diff --git a/torchmps/torchmps.py b/torchmps/torchmps.py
index 3fdc570..fc0d6cf 100644
--- a/torchmps/torchmps.py
+++ b/torchmps/torchmps.py
@@ -101,8 +101,8 @@ class TI_MPS(nn.Module):
         contractable_list = [input_region(batch_input)]
 
         # Prepend an EdgeVec and append an OutputMat
-        contractable_list = [self.init_vector()] + contractable_list
-        contractable_list.append(self.terminal_mat())
+        contractable_list = [self.init_vector(batch_size)] + contractable_list
+        contractable_list.append(self.terminal_mat(batch_size))
 
         # Wrap contractable_list as a ContractableList instance
         contractable_list = ContractableList(contractable_list)
@@ -674,10 +674,11 @@ class LinearRegion(nn.Module):
             ]
 
             # Build dummy end vectors and insert them at the ends of our list
-            end_vecs = [torch.zeros(dim).to(device) for dim in bond_dims]
+            batch_size = input_data.size(0)
+            end_vecs = [torch.zeros(batch_size, dim).to(device) for dim in bond_dims]
 
             for vec in end_vecs:
-                vec[0] = 1
+                vec[:, 0] = 1
             contractable_list.insert(0, EdgeVec(end_vecs[0], is_left_vec=True))
             contractable_list.append(EdgeVec(end_vecs[1], is_left_vec=False))
 
@@ -1297,8 +1298,13 @@ class OutputSite(nn.Module):
     def forward(self, input_data):
         """
         Return the OutputSite wrapped as an OutputCore contractable
+
+        Args:
+            input_data (Tensor): Input with shape [batch_size, 0, feature_dim],
+                                 only used to set the batch size of our output
         """
-        return OutputCore(self.tensor)
+        batch_size = input_data.size(0)
+        return OutputCore(self.tensor.expand([batch_size] + list(self.tensor.shape)))
 
     def get_norm(self):
         """
@@ -1457,11 +1463,14 @@ class InitialVector(nn.Module):
         assert isinstance(is_left_vec, bool)
         self.is_left_vec = is_left_vec
 
-    def forward(self):
+    def forward(self, batch_size=None):
         """
         Return our initial vector wrapped as an EdgeVec contractable
         """
-        return EdgeVec(self.vec, self.is_left_vec)
+        vec = self.vec
+        if batch_size is not None:
+            vec = vec.expand([batch_size] + list(vec.shape))
+        return EdgeVec(vec, self.is_left_vec)
 
     def core_len(self):
         return 1
@@ -1507,11 +1516,14 @@ class TerminalOutput(nn.Module):
         assert isinstance(is_left_mat, bool)
         self.is_left_mat = is_left_mat
 
-    def forward(self):
+    def forward(self, batch_size=None):
         """
         Return our terminal matrix wrapped as an OutputMat contractable
         """
-        return OutputMat(self.mat, self.is_left_mat)
+        mat = self.mat
+        if batch_size is not None:
+            mat = mat.expand([batch_size] + list(mat.shape))
+        return OutputMat(mat, self.is_left_mat)
 
     def core_len(self):
         return 1
-- 
2.43.0


From 87e24ecf89c0eed303c60ab2d4839946b608b1f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:56 +0000
Subject: [PATCH 02/36] fix: MPS with an input region of length one can be
 evaluated

label_site=1 or input_dim-1 (and input_dim=1) gave an InputRegion with one site,
which was fed a 2D slice and raised AssertionError.
---
 torchmps/torchmps.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/torchmps/torchmps.py b/torchmps/torchmps.py
index fc0d6cf..22eecb5 100644
--- a/torchmps/torchmps.py
+++ b/torchmps/torchmps.py
@@ -631,7 +631,7 @@ class LinearRegion(nn.Module):
         contractable_list = []
         for module in self.module_list:
             mod_len = len(module)
-            if mod_len == 1:
+            if mod_len == 1 and not isinstance(module, InputRegion):
                 mod_input = input_data[:, ind]
             else:
                 mod_input = input_data[:, ind : (ind + mod_len)]
-- 
2.43.0


From a23785aee5775ee0d4c3b9ca646a42596428576f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:56 +0000
Subject: [PATCH 03/36] fix: MPS accepts its path as a tensor, as the assertion
 on its type allows

The truth value of a tensor with several entries is an error.
---
 torchmps/torchmps.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/torchmps/torchmps.py b/torchmps/torchmps.py
index 22eecb5..d0c87f9 100644
--- a/torchmps/torchmps.py
+++ b/torchmps/torchmps.py
@@ -432,7 +432,7 @@ class MPS(nn.Module):
             )
         assert len(self.linear_region) == input_dim
 
-        if path:
+        if path is not None and len(path) > 0:
             assert isinstance(path, (list, torch.Tensor))
             assert len(path) == input_dim
 
@@ -468,7 +468,7 @@ class MPS(nn.Module):
                                  which act on different parts of the input.
         """
         # For custom paths, rearrange our input into the desired order
-        if self.path:
+        if self.path is not None and len(self.path) > 0:
             path_inputs = []
             for site_num in self.path:
                 path_inputs.append(input_data[:, site_num])
-- 
2.43.0


From d5d0a670f661b888f1e78df701988db7535afed1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:56 +0000
Subject: [PATCH 04/36] fix: merging and unmerging keep the last remaining core

With input_dim=1 the input and output cores merge into a single core, which the
next sweep dropped, so an adaptive MPS could not be created.
---
 torchmps/torchmps.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/torchmps/torchmps.py b/torchmps/torchmps.py
index d0c87f9..447ba1c 100644
--- a/torchmps/torchmps.py
+++ b/torchmps/torchmps.py
@@ -820,10 +820,10 @@ class MergedLinearRegion(LinearRegion):
                     mod_num += 2
                     site_num += new_core.core_len()
 
-                # Add the last core if there's nothing to merge it with
-                if mod_num == len(merged_list) - 1:
-                    combined_list.append(merged_list[mod_num])
-                    mod_num += 1
+            # Add the last core if there's nothing to merge it with
+            if mod_num == len(merged_list) - 1:
+                combined_list.append(merged_list[mod_num])
+                mod_num += 1
 
             # We're finished when unmerged_list remains unchanged
             if len(combined_list) == len(merged_list):
@@ -896,10 +896,10 @@ class MergedLinearRegion(LinearRegion):
                     combined_list.append(new_core)
                     mod_num += 2
 
-                # Add the last core if there's nothing to combine it with
-                if mod_num == len(unmerged_list) - 1:
-                    combined_list.append(unmerged_list[mod_num])
-                    mod_num += 1
+            # Add the last core if there's nothing to combine it with
+            if mod_num == len(unmerged_list) - 1:
+                combined_list.append(unmerged_list[mod_num])
+                mod_num += 1
 
             # We're finished when unmerged_list remains unchanged
             if len(combined_list) == len(unmerged_list):
-- 
2.43.0


From bfb9b6cb8c14c82e747eedd49c4b5d5cf5ba8041 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:56 +0000
Subject: [PATCH 05/36] fix: unmerging recombines two neighboring InputSites
 into an InputRegion

A region of exactly two sites (label_site=2 or input_dim-2, which includes the
default for input_dim=4 and 5) is split into two lone sites in one of the merge
states. They stayed separate, so the next merge raised AssertionError and an
adaptive MPS failed at its first or second shift.
---
 torchmps/torchmps.py | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/torchmps/torchmps.py b/torchmps/torchmps.py
index 447ba1c..fe47064 100644
--- a/torchmps/torchmps.py
+++ b/torchmps/torchmps.py
@@ -950,21 +950,23 @@ class MergedLinearRegion(LinearRegion):
                 )
             return MergedOutput(new_tensor, left_output=(not left_site))
 
-        # Combine an InputRegion with a stray InputSite, return an InputRegion
-        elif not merging and (
-            (isinstance(left_core, InputRegion) and isinstance(right_core, InputSite))
-            or (
-                isinstance(left_core, InputSite) and isinstance(right_core, InputRegion)
+        # Combine stray InputSites with each other or with an InputRegion,
+        # return an InputRegion
+        elif (
+            not merging
+            and isinstance(left_core, (InputRegion, InputSite))
+            and isinstance(right_core, (InputRegion, InputSite))
+            and not (
+                isinstance(left_core, InputRegion)
+                and isinstance(right_core, InputRegion)
             )
         ):
 
-            left_site = isinstance(left_core, InputSite)
-            if left_site:
-                left_tensor = left_core.tensor.unsqueeze(0)
-                right_tensor = right_core.tensor
-            else:
-                left_tensor = left_core.tensor
-                right_tensor = right_core.tensor.unsqueeze(0)
+            left_tensor, right_tensor = left_core.tensor, right_core.tensor
+            if isinstance(left_core, InputSite):
+                left_tensor = left_tensor.unsqueeze(0)
+            if isinstance(right_core, InputSite):
+                right_tensor = right_tensor.unsqueeze(0)
 
             assert left_tensor.shape[1:] == right_tensor.shape[1:]
             new_tensor = torch.cat([left_tensor, right_tensor])
-- 
2.43.0


From a77ce72a03f4de118fa8869c60d5a092d9a7460c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:56 +0000
Subject: [PATCH 06/36] fix: TI_MPS pads unembedded sequences with zero feature
 vectors

The padding was embedded along with the data, so that the output for a sequence
depended on the length of the longest sequence given with it.
---
 torchmps/torchmps.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/torchmps/torchmps.py b/torchmps/torchmps.py
index fe47064..f143e89 100644
--- a/torchmps/torchmps.py
+++ b/torchmps/torchmps.py
@@ -193,6 +193,10 @@ class TI_MPS(nn.Module):
             if len(batch_input.shape) == 2:
                 batch_input = self.embed_input(batch_input)
 
+                # The embedding of zero is generally nonzero, restore padding
+                for i, seq in enumerate(input_data):
+                    batch_input[i, seq.size(0) :] = 0
+
             return batch_input
 
         else:
-- 
2.43.0


From 46f8023b7383e9f3c68a7cfc81a98c0805d82146 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:56 +0000
Subject: [PATCH 07/36] fix: matrix products which are zero give zero instead
 of NaN

The running rescaling divided by the norm of the partial product. A ProbMPS given
a batch with one impossible sequence raised AssertionError for all of the batch.
---
 torchmps/mps_base.py | 5 ++++-
 torchmps/utils2.py   | 7 +++++++
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/torchmps/mps_base.py b/torchmps/mps_base.py
index 849bdde..d44f503 100644
--- a/torchmps/mps_base.py
+++ b/torchmps/mps_base.py
@@ -37,6 +37,7 @@ from torchmps.utils2 import (
     hermitian_trace,
     realify,
     CIndex,
+    nonzero_scale,
 )
 
 TensorSeq = Union[Tensor, Sequence[Tensor]]
@@ -105,7 +106,7 @@ def slim_eval_fun(seq_input: Tensor, core_tensor: Tensor, bound_vecs: Tensor) ->
         vecs = torch.matmul(vecs, mats)
 
         # Rescale vectors, update log_scale
-        rescale = vecs.abs().sum(dim=-1, keepdim=True) / bond_dim
+        rescale = nonzero_scale(vecs.abs().sum(dim=-1, keepdim=True) / bond_dim)
         log_scale = log_scale + rescale.log()[:, 0, 0]
         vecs = vecs / rescale
 
@@ -293,6 +294,7 @@ def mat_reduce_par(matrices: Tensor) -> Tuple[Tensor, Tensor]:
 
         # Rescale matrices and update log_scale
         rescales = matrices.abs().sum(dim=(-2, -1), keepdim=True) / bond_dim
+        rescales = nonzero_scale(rescales)
         log_scale = log_scale + rescales.log().sum(dim=-3)
         matrices = matrices / rescales
 
@@ -326,6 +328,7 @@ def mat_reduce_seq(matrices: Sequence[Tensor]) -> Tensor:
         # Rescale and update the log scale factor
         target_norm = sqrt(product.shape[-2] * product.shape[-1])
         rescale = product.abs().sum(dim=(-2, -1), keepdim=True) / target_norm
+        rescale = nonzero_scale(rescale)
         log_scale = log_scale + torch.log(rescale)
         product = product / rescale
 
diff --git a/torchmps/utils2.py b/torchmps/utils2.py
index a3fb72b..172a8bc 100644
--- a/torchmps/utils2.py
+++ b/torchmps/utils2.py
@@ -198,6 +198,13 @@ def floor2(tensor: Tensor) -> Tensor:
     return 2 ** (torch.floor(torch.log(tensor)))
 
 
+def nonzero_scale(scale: Tensor) -> Tensor:
+    """
+    Replace zeros in tensor of scale factors by ones, so we can divide by it
+    """
+    return torch.where(scale == 0, torch.ones_like(scale), scale)
+
+
 log_2 = log(2)
 
 
-- 
2.43.0


From 03adff38631212a5ad45b5536e868c2c6e117a3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:56 +0000
Subject: [PATCH 08/36] fix: realify tolerates rounding errors in proportion to
 the magnitude

The absolute tolerance made complex probabilistic models with parameters of
order 100 raise AssertionError in forward.
---
 torchmps/utils2.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/torchmps/utils2.py b/torchmps/utils2.py
index 172a8bc..e58126c 100644
--- a/torchmps/utils2.py
+++ b/torchmps/utils2.py
@@ -183,7 +183,8 @@ def realify(tensor: Tensor) -> Tensor:
     Input must be approximately real, `realify` will raise error if not
     """
     if tensor.is_complex():
-        assert torch.allclose(tensor.imag, torch.zeros(()), atol=1e-4)
+        tol = 1e-4 * tensor.detach().abs().clamp(min=1)
+        assert torch.all(tensor.imag.abs() <= tol)
         return tensor.real
     else:
         return tensor
-- 
2.43.0


From dd874945ca708330b8044343dd7c41fa9f2543e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:56 +0000
Subject: [PATCH 09/36] fix: parameters of a TrainableEmbedding belong to the
 model using it

The wrapped module was only reachable through a lambda, so that its parameters
were neither in parameters() nor in state_dict(), and a deep copy of the model
shared them with the original.
---
 torchmps/embeddings.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/torchmps/embeddings.py b/torchmps/embeddings.py
index 6cd17c8..b9cafa7 100644
--- a/torchmps/embeddings.py
+++ b/torchmps/embeddings.py
@@ -88,9 +88,11 @@ class TrainableEmbedding(nn.Module):
 
         # Save defining data
         self.domain = data_domain
+        self.emb_module = emb_fun
+
+    def emb_fun(self, x):
         # Need to add on singleton dimension to agree with nn.Module format
-        self.emb_fun = lambda x: emb_fun(x[..., None])
-        # self.emb_fun = emb_fun
+        return self.emb_module(x[..., None])
 
     def make_lambda(self, num_points: int = 1000):
         """
-- 
2.43.0


From bf0b1fbd85578ad64cc7a019cc536aecad54bf8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:56 +0000
Subject: [PATCH 10/36] fix: the lambda matrix of a trainable embedding is
 always current

It was only computed in forward: log_norm raised AttributeError before the first
call, and after an update of the parameters used the matrix of the last call. A
model could not be deep copied after a forward pass, since the stored matrix is
not a graph leaf.
---
 torchmps/embeddings.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/torchmps/embeddings.py b/torchmps/embeddings.py
index b9cafa7..ed5ea83 100644
--- a/torchmps/embeddings.py
+++ b/torchmps/embeddings.py
@@ -94,9 +94,16 @@ class TrainableEmbedding(nn.Module):
         # Need to add on singleton dimension to agree with nn.Module format
         return self.emb_module(x[..., None])
 
+    @property
+    def lamb_mat(self):
+        """
+        Lambda matrix for the current parameters of the embedding function
+        """
+        return self.make_lambda()
+
     def make_lambda(self, num_points: int = 1000):
         """
-        Compute the lambda matrix used for normalization
+        Compute and return the lambda matrix used for normalization
         """
         # Compute the raw lambda matrix, computing number of points if needed
         if self.domain.continuous:
@@ -126,21 +133,19 @@ class TrainableEmbedding(nn.Module):
 
         assert lamb_mat.ndim == 2
         assert lamb_mat.shape[0] == lamb_mat.shape[1]
-        self.lamb_mat = lamb_mat
 
         # Check if the computed matrix is diagonal or multiple of the identity
         if torch.allclose(lamb_mat.diag().diag(), lamb_mat):
             lamb_mat = lamb_mat.diag()
             if torch.allclose(lamb_mat.mean(), lamb_mat):
-                self.lamb_mat = lamb_mat.mean()
-            else:
-                self.lamb_mat = lamb_mat
+                lamb_mat = lamb_mat.mean()
+
+        return lamb_mat
 
     def forward(self, input_data):
         """
         Embed input data via the user-specified embedding function
         """
-        self.make_lambda()
         return self.emb_fun(input_data)
 
 
-- 
2.43.0


From 49f18bdc33cdc732c7dde57f87ff022d6c4dad33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:56 +0000
Subject: [PATCH 11/36] fix: a feature map which is a Module can be replaced by
 a function

---
 torchmps/torchmps.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/torchmps/torchmps.py b/torchmps/torchmps.py
index f143e89..b88cd3e 100644
--- a/torchmps/torchmps.py
+++ b/torchmps/torchmps.py
@@ -274,6 +274,8 @@ class TI_MPS(nn.Module):
                     f"values of size {list(needed_shape)}"
                 )
 
+        # A map which is a Module can't be overwritten by one which isn't
+        self._modules.pop("feature_map", None)
         self.feature_map = feature_map
 
 
@@ -571,6 +573,8 @@ class MPS(nn.Module):
                     f"values of size {list(needed_shape)}"
                 )
 
+        # A map which is a Module can't be overwritten by one which isn't
+        self._modules.pop("feature_map", None)
         self.feature_map = feature_map
 
     def core_len(self):
-- 
2.43.0


From e9c4deae234758ba912aaf7f15bb3df2dd1b90e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:56 +0000
Subject: [PATCH 12/36] fix: parallel_eval overrides slim_eval, as documented

---
 torchmps/prob_mps.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/torchmps/prob_mps.py b/torchmps/prob_mps.py
index 9f840d8..89a70d9 100644
--- a/torchmps/prob_mps.py
+++ b/torchmps/prob_mps.py
@@ -171,7 +171,7 @@ class ProbMPS(nn.Module):
         if self.embedding is not None:
             input_data = self.embedding(input_data)
 
-        if slim_eval:
+        if slim_eval and not parallel_eval:
             if self.use_bias:
                 raise ValueError("Bias matrices not supported for slim_eval")
             psi_vals, log_scales = slim_eval_fun(
@@ -399,7 +399,7 @@ class ProbUnifMPS(ProbMPS):
         if self.embedding is not None:
             input_data = self.embedding(input_data)
 
-        if slim_eval:
+        if slim_eval and not parallel_eval:
             if self.use_bias:
                 raise ValueError("Bias matrices not supported for slim_eval")
             psi_vals, log_scales = slim_eval_fun(
-- 
2.43.0


From 132466f6834ecc1398f6ceea1b17bc531b11ae9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:56 +0000
Subject: [PATCH 13/36] fix: trig_embed works without scipy, which is not a
 requirement

---
 torchmps/embeddings.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/torchmps/embeddings.py b/torchmps/embeddings.py
index ed5ea83..1ef49da 100644
--- a/torchmps/embeddings.py
+++ b/torchmps/embeddings.py
@@ -20,7 +20,7 @@
 # CONNECTION WITH THE SOFTWARE OR THE USE OR OTHER DEALINGS IN THE SOFTWARE.
 
 """Uniform and non-uniform probabilistic MPS classes"""
-from math import sqrt, pi
+from math import sqrt, pi, factorial
 from functools import partial
 from typing import Union, Optional, Callable
 
@@ -249,15 +249,14 @@ def trig_embed(data, emb_dim=2):
 
     Written by Raphaëlle Tihon
     """
-    from scipy.special import binom
-
     emb_data = []
     for s in range(emb_dim):
         comp = (
             torch.cos(data * pi / 2) ** (emb_dim - s - 1)
             * torch.sin(data * pi / 2) ** s
         )
-        comp *= sqrt(binom(emb_dim - 1, s))
+        binom = factorial(emb_dim - 1) / (factorial(s) * factorial(emb_dim - 1 - s))
+        comp *= sqrt(binom)
         emb_data.append(comp)
     emb_data = torch.stack(emb_data, dim=-1)
     assert emb_data.shape == data.shape + (emb_dim,)
-- 
2.43.0


From 446f8fb7cc3737b75b6207c4f7a7a907400be559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:56 +0000
Subject: [PATCH 14/36] fix: init_tensor handles unequal bond dimensions

min_random_eye raised when init_dim had to be capped, and random_eye did not give
an identity when the right bond comes before the left one.
---
 torchmps/utils.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/torchmps/utils.py b/torchmps/utils.py
index 506cba2..34fd418 100644
--- a/torchmps/utils.py
+++ b/torchmps/utils.py
@@ -219,10 +219,8 @@ def init_tensor(shape, bond_str, init_method):
             # The dimensions for our initial identity matrix. These will each
             # be init_dim, unless init_dim exceeds one of the bond dimensions
             bond_dims = [shape[bond_str.index(c)] for c in bond_chars]
-            if all([init_dim <= full_dim for full_dim in bond_dims]):
-                bond_dims = [init_dim, init_dim]
-            else:
-                init_dim = min(bond_dims)
+            init_dim = min([init_dim] + bond_dims)
+            bond_dims = [init_dim, init_dim]
 
             eye_shape = [init_dim if c in bond_chars else 1 for c in bond_str]
             expand_shape = [
@@ -235,7 +233,7 @@ def init_tensor(shape, bond_str, init_method):
                 shape[i] if c in bond_chars else 1 for i, c in enumerate(bond_str)
             ]
             expand_shape = shape
-            bond_dims = [shape[bond_str.index(c)] for c in bond_chars]
+            bond_dims = [shape[i] for i, c in enumerate(bond_str) if c in bond_chars]
 
         eye_tensor = torch.eye(bond_dims[0], bond_dims[1]).view(eye_shape)
         eye_tensor = eye_tensor.expand(expand_shape)
-- 
2.43.0


From 1dd7a4384a77898f9aea9f4f0ec61b2534474b19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:56 +0000
Subject: [PATCH 15/36] fix: load_HV_data works with current numpy, which has
 no np.int

---
 torchmps/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/torchmps/utils.py b/torchmps/utils.py
index 34fd418..60c7382 100644
--- a/torchmps/utils.py
+++ b/torchmps/utils.py
@@ -314,7 +314,7 @@ def load_HV_data(length):
         )
 
     images = np.empty([num_images, length, length], dtype=np.float32)
-    labels = np.empty(num_images, dtype=np.int)
+    labels = np.empty(num_images, dtype=int)
 
     # Used to generate the stripe pattern from integer i below
     template = "{:0" + str(length) + "b}"
-- 
2.43.0


From 7fbc5bd892eb67c955f5b5b55768a6612e71f896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:56 +0000
Subject: [PATCH 16/36] fix: normal_init uses its rel_std argument

---
 torchmps/mps_base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/torchmps/mps_base.py b/torchmps/mps_base.py
index d44f503..d54ad3f 100644
--- a/torchmps/mps_base.py
+++ b/torchmps/mps_base.py
@@ -555,7 +555,7 @@ def normal_init(shape: tuple, is_complex: bool = False, rel_std: float = 1.0) ->
             )
 
     # Initialize core using size-adjusted value of variance
-    std = 1 / shape[-1]
+    std = rel_std / shape[-1]
     core_tensor = std * torch.randn(shape)
     if is_complex:
         core_tensor = phaseify(core_tensor)
-- 
2.43.0


From ec280ea1b253e5b43a7aa4adf48e5ff3f5867f77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:56 +0000
Subject: [PATCH 17/36] fix: slim_eval_fun accepts sequences of length zero

---
 torchmps/mps_base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/torchmps/mps_base.py b/torchmps/mps_base.py
index d54ad3f..0c8f57f 100644
--- a/torchmps/mps_base.py
+++ b/torchmps/mps_base.py
@@ -100,7 +100,7 @@ def slim_eval_fun(seq_input: Tensor, core_tensor: Tensor, bound_vecs: Tensor) ->
 
     # Process input sequentially, from left to right
     log_scale = torch.zeros(batch)
-    vecs = bound_vecs[0][None, None]
+    vecs = bound_vecs[0][None, None].expand(batch, 1, bond_dim)
     for inps, core in zip(seq_input, all_cores):
         mats = slice_fun(inps, core)
         vecs = torch.matmul(vecs, mats)
-- 
2.43.0


From 1b3e356c33f5f4de722eba5ba24240f0e22e831b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:56 +0000
Subject: [PATCH 18/36] fix: MPS and TI_MPS keep the dtype of their parameters

Intermediate tensors had the default dtype, so that a model converted with
double() raised RuntimeError.
---
 torchmps/torchmps.py | 18 ++++++++++++------
 torchmps/utils.py    |  6 +++---
 2 files changed, 15 insertions(+), 9 deletions(-)

diff --git a/torchmps/torchmps.py b/torchmps/torchmps.py
index b88cd3e..565b653 100644
--- a/torchmps/torchmps.py
+++ b/torchmps/torchmps.py
@@ -181,7 +181,9 @@ class TI_MPS(nn.Module):
             if can_pad:
                 batch_size = len(input_data)
                 full_size = [batch_size, max_len, feature_dim]
-                batch_input = torch.zeros(full_size[: num_modes + 1])
+                batch_input = torch.zeros(
+                    full_size[: num_modes + 1], dtype=self.core_tensor.dtype
+                )
 
                 # Copy each sequence into batch_input
                 for i, seq in enumerate(input_data):
@@ -242,7 +244,7 @@ class TI_MPS(nn.Module):
                     f"self.feature_dim = {feature_dim}, but "
                     "default feature_map requires self.feature_dim = 2"
                 )
-            embedded_data = torch.empty(embedded_shape)
+            embedded_data = torch.empty(embedded_shape, dtype=self.core_tensor.dtype)
 
             embedded_data[:, :, 0] = input_data
             embedded_data[:, :, 1] = 1 - input_data
@@ -683,7 +685,11 @@ class LinearRegion(nn.Module):
 
             # Build dummy end vectors and insert them at the ends of our list
             batch_size = input_data.size(0)
-            end_vecs = [torch.zeros(batch_size, dim).to(device) for dim in bond_dims]
+            dtype = end_items[0].tensor.dtype
+            end_vecs = [
+                torch.zeros(batch_size, dim, dtype=dtype).to(device)
+                for dim in bond_dims
+            ]
 
             for vec in end_vecs:
                 vec[:, 0] = 1
@@ -1202,7 +1208,7 @@ class MergedInput(nn.Module):
         # Split every one of the cores into two and add them both to core_list
         core_list, bond_list, sv_list = [], [None], [None]
         for merged_core in tensor:
-            sv_vec = torch.empty(max_D)
+            sv_vec = torch.empty(max_D, dtype=tensor.dtype)
             left_core, right_core, bond_dim = svd_flex(
                 merged_core, svd_string, max_D, cutoff, sv_vec=sv_vec
             )
@@ -1394,7 +1400,7 @@ class MergedOutput(nn.Module):
         if left_output:
             svd_string = "olri->olu,uri"
             max_D = tensor.size(2)
-            sv_vec = torch.empty(max_D)
+            sv_vec = torch.empty(max_D, dtype=tensor.dtype)
 
             output_core, input_core, bond_dim = svd_flex(
                 tensor, svd_string, max_D, cutoff, sv_vec=sv_vec
@@ -1408,7 +1414,7 @@ class MergedOutput(nn.Module):
         else:
             svd_string = "olri->our,lui"
             max_D = tensor.size(1)
-            sv_vec = torch.empty(max_D)
+            sv_vec = torch.empty(max_D, dtype=tensor.dtype)
 
             output_core, input_core, bond_dim = svd_flex(
                 tensor, svd_string, max_D, cutoff, sv_vec=sv_vec
diff --git a/torchmps/utils.py b/torchmps/utils.py
index 60c7382..d29c15c 100644
--- a/torchmps/utils.py
+++ b/torchmps/utils.py
@@ -93,11 +93,11 @@ def svd_flex(tensor, svd_string, max_D=None, cutoff=1e-10, sv_right=True, sv_vec
             left_mat = left_mat[:, :max_D]
             right_mat = right_mat[:max_D]
         elif max_D and len(svs) < max_D:
-            copy_svs = torch.zeros([max_D])
+            copy_svs = torch.zeros([max_D], dtype=tensor.dtype)
             copy_svs[: len(svs)] = svs
-            copy_left = torch.zeros([left_mat.size(0), max_D])
+            copy_left = torch.zeros([left_mat.size(0), max_D], dtype=tensor.dtype)
             copy_left[:, : left_mat.size(1)] = left_mat
-            copy_right = torch.zeros([max_D, right_mat.size(1)])
+            copy_right = torch.zeros([max_D, right_mat.size(1)], dtype=tensor.dtype)
             copy_right[: right_mat.size(0)] = right_mat
             svs, left_mat, right_mat = copy_svs, copy_left, copy_right
 
-- 
2.43.0


From 34e035d46ab78c69d1e991ce7358673b7fcc3aa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:56 +0000
Subject: [PATCH 19/36] fix: empty lists of contractables or modules are
 rejected

---
 torchmps/contractables.py | 2 +-
 torchmps/torchmps.py      | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/torchmps/contractables.py b/torchmps/contractables.py
index cc6a4e3..f78b8e3 100644
--- a/torchmps/contractables.py
+++ b/torchmps/contractables.py
@@ -174,7 +174,7 @@ class ContractableList(Contractable):
 
     def __init__(self, contractable_list):
         # Check that input list is nonempty and has contractables as entries
-        if not isinstance(contractable_list, list) or contractable_list is []:
+        if not isinstance(contractable_list, list) or len(contractable_list) == 0:
             raise ValueError("Input to ContractableList must be nonempty list")
         for i, item in enumerate(contractable_list):
             if not isinstance(item, Contractable):
diff --git a/torchmps/torchmps.py b/torchmps/torchmps.py
index 565b653..c25ebfb 100644
--- a/torchmps/torchmps.py
+++ b/torchmps/torchmps.py
@@ -601,7 +601,7 @@ class LinearRegion(nn.Module):
         self, module_list, periodic_bc=False, parallel_eval=False, module_states=None
     ):
         # Check that module_list is a list whose entries are Pytorch modules
-        if not isinstance(module_list, list) or module_list is []:
+        if not isinstance(module_list, list) or len(module_list) == 0:
             raise ValueError("Input to LinearRegion must be nonempty list")
         for i, item in enumerate(module_list):
             if not isinstance(item, nn.Module):
-- 
2.43.0


From 400d688957206a2be639d17d572237c0d7c539d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:56 +0000
Subject: [PATCH 20/36] fix: products of a ContractableList with a contractable

The items were multiplied with a bare tensor, which always raised, and on the
wrong side.
---
 torchmps/contractables.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/torchmps/contractables.py b/torchmps/contractables.py
index f78b8e3..6206251 100644
--- a/torchmps/contractables.py
+++ b/torchmps/contractables.py
@@ -191,15 +191,15 @@ class ContractableList(Contractable):
         """
         # The input cannot be a composite contractable
         assert hasattr(contractable, "tensor")
-        output = contractable.tensor
+        output = contractable
 
         # Multiply by everything in ContractableList, in the correct order
         if rmul:
             for item in self.contractable_list:
-                output = item * output
+                output = output * item
         else:
             for item in self.contractable_list[::-1]:
-                output = output * item
+                output = item * output
 
         return output
 
-- 
2.43.0


From 4b4960d14fc2e50ec85780fb74f3796c26c26e01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:01 +0000
Subject: [PATCH 21/36] fix: state dictionaries of adaptive MPS include the
 merge state

A model saved after an odd number of flips and loaded into a fresh model
used the stale, inactive set of merged cores, i.e. computed a different
function. State dictionaries without the merge state are still accepted.
---
 torchmps/torchmps.py | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/torchmps/torchmps.py b/torchmps/torchmps.py
index c25ebfb..5fc54d1 100644
--- a/torchmps/torchmps.py
+++ b/torchmps/torchmps.py
@@ -778,6 +778,24 @@ class MergedLinearRegion(LinearRegion):
         else:
             return output
 
+    def get_extra_state(self):
+        """
+        Return the merge state, without which the parameters are ambiguous
+        """
+        return torch.tensor([self.offset, self.input_counter])
+
+    def set_extra_state(self, state):
+        """
+        Restore the merge state, and point to the corresponding module list
+        """
+        self.offset, self.input_counter = [int(x) for x in state]
+        self.module_list = getattr(self, f"module_list_{self.offset}")
+
+    def _load_from_state_dict(self, state_dict, prefix, *args, **kwargs):
+        # Accept state dictionaries which were saved without the merge state
+        state_dict.setdefault(prefix + "_extra_state", self.get_extra_state())
+        super()._load_from_state_dict(state_dict, prefix, *args, **kwargs)
+
     @torch.no_grad()
     def _merge(self, offset):
         """
-- 
2.43.0


From 73675b9652451b11d047c42612a45b4392b78f81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:41 +0000
Subject: [PATCH 22/36] fix: normalization with both an embedding and a bias
 matrix

The log norm added the bias to every core slice, although the amplitude of
embedded inputs contains it just once. Both agree only if the components of
all embedded vectors add up to one.
---
 torchmps/embeddings.py | 22 +++++++++++++++++++++-
 torchmps/prob_mps.py   | 38 +++++++++++++++++++++++---------------
 2 files changed, 44 insertions(+), 16 deletions(-)

diff --git a/torchmps/embeddings.py b/torchmps/embeddings.py
index 1ef49da..21cf623 100644
--- a/torchmps/embeddings.py
+++ b/torchmps/embeddings.py
@@ -101,7 +101,15 @@ class TrainableEmbedding(nn.Module):
         """
         return self.make_lambda()
 
-    def make_lambda(self, num_points: int = 1000):
+    @property
+    def bias_lamb_mat(self):
+        """
+        Lambda matrix for models with a bias, which is an additional core
+        slice multiplying a constant feature
+        """
+        return self.make_lambda(use_bias=True)
+
+    def make_lambda(self, num_points: int = 1000, use_bias: bool = False):
         """
         Compute and return the lambda matrix used for normalization
         """
@@ -115,6 +123,8 @@ class TrainableEmbedding(nn.Module):
             assert emb_vecs.ndim == 2
             self.emb_dim = emb_vecs.shape[1]
             assert emb_vecs.shape[0] == num_points
+            if use_bias:
+                emb_vecs = nn.functional.pad(emb_vecs, (0, 1), value=1.0)
 
             # Get rank-1 matrices for each point, then numerically integrate
             emb_mats = einsum("bi,bj->bij", emb_vecs, emb_vecs.conj())
@@ -126,6 +136,8 @@ class TrainableEmbedding(nn.Module):
             assert emb_vecs.ndim == 2
             self.emb_dim = emb_vecs.shape[1]
             assert emb_vecs.shape[0] == self.domain.max_val
+            if use_bias:
+                emb_vecs = nn.functional.pad(emb_vecs, (0, 1), value=1.0)
 
             # Get rank-1 matrices for each point, then sum together
             emb_mats = einsum("bi,bj->bij", emb_vecs, emb_vecs.conj())
@@ -133,6 +145,8 @@ class TrainableEmbedding(nn.Module):
 
         assert lamb_mat.ndim == 2
         assert lamb_mat.shape[0] == lamb_mat.shape[1]
+        if use_bias:
+            return lamb_mat
 
         # Check if the computed matrix is diagonal or multiple of the identity
         if torch.allclose(lamb_mat.diag().diag(), lamb_mat):
@@ -186,6 +200,7 @@ class FixedEmbedding(nn.Module):
             assert emb_vecs.ndim == 2
             self.emb_dim = emb_vecs.shape[1]
             assert emb_vecs.shape[0] == num_points
+            emb_vecs = nn.functional.pad(emb_vecs, (0, 1), value=1.0)
 
             # Get rank-1 matrices for each point, then numerically integrate
             emb_mats = einsum("bi,bj->bij", emb_vecs, emb_vecs.conj())
@@ -197,6 +212,7 @@ class FixedEmbedding(nn.Module):
             assert emb_vecs.ndim == 2
             self.emb_dim = emb_vecs.shape[1]
             assert emb_vecs.shape[0] == self.domain.max_val
+            emb_vecs = nn.functional.pad(emb_vecs, (0, 1), value=1.0)
 
             # Get rank-1 matrices for each point, then sum together
             emb_mats = einsum("bi,bj->bij", emb_vecs, emb_vecs.conj())
@@ -204,6 +220,10 @@ class FixedEmbedding(nn.Module):
 
         assert lamb_mat.ndim == 2
         assert lamb_mat.shape[0] == lamb_mat.shape[1]
+
+        # Last feature is a constant, only needed for models with a bias
+        self.bias_lamb_mat = lamb_mat
+        lamb_mat = lamb_mat[:-1, :-1]
         self.lamb_mat = lamb_mat
 
         # Check if the computed matrix is diagonal or multiple of the identity
diff --git a/torchmps/prob_mps.py b/torchmps/prob_mps.py
index 89a70d9..ee6cbba 100644
--- a/torchmps/prob_mps.py
+++ b/torchmps/prob_mps.py
@@ -243,16 +243,31 @@ class ProbMPS(nn.Module):
             l_norm: Scalar value giving the log squared L2 norm of the
                 n'th order prob. amp. tensor described by the MPS.
         """
-        # Account for bias matrices before calling log norm implementation
-        if self.use_bias:
-            core_tensors = self.core_tensors + self.bias_mat[None, None]
-        else:
-            core_tensors = self.core_tensors
+        core_tensors, lamb_mat = self._norm_tensors()
+
+        return get_log_norm(core_tensors, self.edge_vecs, lamb_mat=lamb_mat)
+
+    def _norm_tensors(self):
+        """
+        Core tensors and lambda matrix which determine the normalization
+        """
+        core_tensors = self.core_tensors
+        if self.embedding is None:
+            # Every slice of the cores is shifted by the bias matrix
+            if self.use_bias:
+                core_tensors = core_tensors + self.bias_mat
+            return core_tensors, None
 
         # Account for non-trivial lambda function in the embedding
-        lamb_mat = None if self.embedding is None else self.embedding.lamb_mat
+        if not self.use_bias:
+            return core_tensors, self.embedding.lamb_mat
 
-        return get_log_norm(core_tensors, self.edge_vecs, lamb_mat=lamb_mat)
+        # Embedded inputs have the bias matrix added once, which makes it a
+        # further core slice whose feature is always one
+        bias_shape = core_tensors.shape[:-3] + (1,) + self.bias_mat.shape
+        bias_core = self.bias_mat.expand(*bias_shape)
+        core_tensors = torch.cat((core_tensors, bias_core), dim=-3)
+        return core_tensors, self.embedding.bias_lamb_mat
 
     @property
     def seq_len(self):
@@ -446,14 +461,7 @@ class ProbUnifMPS(ProbMPS):
             l_norm: Scalar value giving the log squared L2 norm of the
                 n'th order prob. amp. tensor described by the MPS.
         """
-        # Account for bias matrices before calling log norm implementation
-        if self.use_bias:
-            core_tensors = self.core_tensors + self.bias_mat[None]
-        else:
-            core_tensors = self.core_tensors
-
-        # Account for non-trivial lambda function in the embedding
-        lamb_mat = None if self.embedding is None else self.embedding.lamb_mat
+        core_tensors, lamb_mat = self._norm_tensors()
 
         return get_log_norm(
             core_tensors, self.edge_vecs, lamb_mat=lamb_mat, length=data_len
-- 
2.43.0


From 8c542ada10b413f06795559f5b0a2bbc491757b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:54 +0000
Subject: [PATCH 23/36] fix: lambda matrices of fixed embeddings are converted
 with the model

They were plain attributes, so that models converted to another dtype or
device couldn't be normalized.
---
 torchmps/embeddings.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/torchmps/embeddings.py b/torchmps/embeddings.py
index 21cf623..4a4684d 100644
--- a/torchmps/embeddings.py
+++ b/torchmps/embeddings.py
@@ -183,6 +183,8 @@ class FixedEmbedding(nn.Module):
         # Save defining data, compute lambda matrix
         self.domain = data_domain
         self.emb_fun = emb_fun
+        for name in ("lamb_mat", "bias_lamb_mat"):
+            self.register_buffer(name, None, persistent=False)
         self.make_lambda()
 
     @torch.no_grad()
-- 
2.43.0


From f7ca5774e05013ecb514e8e64f6c9ffd0a559f28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:09 +0000
Subject: [PATCH 24/36] fix: complex models are normalized with every embedding

With a real lambda matrix which isn't diagonal the log norm raised an error
about mixed dtypes.
---
 torchmps/mps_base.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/torchmps/mps_base.py b/torchmps/mps_base.py
index 0c8f57f..452cdf5 100644
--- a/torchmps/mps_base.py
+++ b/torchmps/mps_base.py
@@ -430,6 +430,10 @@ def get_log_norm(
     assert not (uniform and length is None)
     fixed_len = not uniform or length != -1
 
+    # Promote lamb_mat to complex dtype if core_tensor is complex
+    if lamb_mat is not None and core_tensor.is_complex():
+        lamb_mat = lamb_mat.to(core_tensor.dtype)
+
     # Initialize all variables needed for log norm calculation
     uniform = core_tensor.ndim == 3
     left_vec, r_vec = boundary_vecs
-- 
2.43.0


From 61c4e210fb8944fbe521ad2aa88ad52caacfe7c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:10 +0000
Subject: [PATCH 25/36] fix: lambda matrices of embeddings with small norm keep
 all their elements

The test for (multiples of) diagonal matrices used an absolute tolerance, so
off-diagonal elements were dropped when all of them are small.
---
 torchmps/embeddings.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/torchmps/embeddings.py b/torchmps/embeddings.py
index 4a4684d..bf183c3 100644
--- a/torchmps/embeddings.py
+++ b/torchmps/embeddings.py
@@ -65,6 +65,13 @@ class DataDomain:
         self.continuous = continuous
 
 
+def rel_close(mat1, mat2):
+    """
+    Whether matrices agree, relative to the magnitude of their elements
+    """
+    return torch.allclose(mat1, mat2, atol=1e-8 * mat2.abs().max().item())
+
+
 class TrainableEmbedding(nn.Module):
     r"""
     Framework for trainable embedding function converting data to vectors
@@ -149,9 +156,9 @@ class TrainableEmbedding(nn.Module):
             return lamb_mat
 
         # Check if the computed matrix is diagonal or multiple of the identity
-        if torch.allclose(lamb_mat.diag().diag(), lamb_mat):
+        if rel_close(lamb_mat.diag().diag(), lamb_mat):
             lamb_mat = lamb_mat.diag()
-            if torch.allclose(lamb_mat.mean(), lamb_mat):
+            if rel_close(lamb_mat.mean(), lamb_mat):
                 lamb_mat = lamb_mat.mean()
 
         return lamb_mat
@@ -229,9 +236,9 @@ class FixedEmbedding(nn.Module):
         self.lamb_mat = lamb_mat
 
         # Check if the computed matrix is diagonal or multiple of the identity
-        if torch.allclose(lamb_mat.diag().diag(), lamb_mat):
+        if rel_close(lamb_mat.diag().diag(), lamb_mat):
             lamb_mat = lamb_mat.diag()
-            if torch.allclose(lamb_mat.mean(), lamb_mat):
+            if rel_close(lamb_mat.mean(), lamb_mat):
                 self.lamb_mat = lamb_mat.mean()
             else:
                 self.lamb_mat = lamb_mat
-- 
2.43.0


From 1d35b59f814e2c5089f11421532f15755c8c1ab8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:31 +0000
Subject: [PATCH 26/36] fix: trainable embeddings can be converted to other
 dtypes

The points used for their lambda matrix had the default dtype, which raised
an error after model.double().
---
 torchmps/embeddings.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/torchmps/embeddings.py b/torchmps/embeddings.py
index bf183c3..2a0c69a 100644
--- a/torchmps/embeddings.py
+++ b/torchmps/embeddings.py
@@ -122,8 +122,13 @@ class TrainableEmbedding(nn.Module):
         """
         # Compute the raw lambda matrix, computing number of points if needed
         if self.domain.continuous:
+            # Points have to have the same dtype as data fed to the embedding
+            dtypes = [p.dtype for p in self.parameters() if p.is_floating_point()]
             points = torch.linspace(
-                self.domain.min_val, self.domain.max_val, steps=num_points
+                self.domain.min_val,
+                self.domain.max_val,
+                steps=num_points,
+                dtype=dtypes[0] if dtypes else None,
             )
             self.num_points = num_points
             emb_vecs = self.emb_fun(points)
-- 
2.43.0


From 2c10b1ac74cce81d4cbd84c1564f9c5d62b74599 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:41 +0000
Subject: [PATCH 27/36] fix: exact gradients of the normalization for diagonal
 lambda matrices

When the lambda matrix of a trainable embedding happened to be diagonal, its
off-diagonal elements were dropped and their gradient was lost.
---
 torchmps/embeddings.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/torchmps/embeddings.py b/torchmps/embeddings.py
index 2a0c69a..5622cc6 100644
--- a/torchmps/embeddings.py
+++ b/torchmps/embeddings.py
@@ -160,6 +160,10 @@ class TrainableEmbedding(nn.Module):
         if use_bias:
             return lamb_mat
 
+        # Gradients need all elements, even when the off-diagonal ones are zero
+        if lamb_mat.requires_grad:
+            return lamb_mat
+
         # Check if the computed matrix is diagonal or multiple of the identity
         if rel_close(lamb_mat.diag().diag(), lamb_mat):
             lamb_mat = lamb_mat.diag()
-- 
2.43.0


From 4fe01490c37fa37611a77db65104b7bdf949b982 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:57 +0000
Subject: [PATCH 28/36] fix: a zero core doesn't turn an adaptive MPS into NaN
 when merging

The rescaling of the cores to equal norms divides by zero if the norm of a
core is zero, which made all parameters NaN.
---
 torchmps/torchmps.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/torchmps/torchmps.py b/torchmps/torchmps.py
index 5fc54d1..f98a0f6 100644
--- a/torchmps/torchmps.py
+++ b/torchmps/torchmps.py
@@ -946,10 +946,12 @@ class MergedLinearRegion(LinearRegion):
         log_scale = sum([sum(ns) for ns in log_norms])
         log_scale /= sum([len(ns) for ns in log_norms])
 
-        # Now rescale all cores so that their norms are roughly equal
-        scales = [[torch.exp(log_scale - n) for n in ns] for ns in log_norms]
-        for core, these_scales in zip(unmerged_list, scales):
-            core.rescale_norm(these_scales)
+        # Now rescale all cores so that their norms are roughly equal, which
+        # isn't possible when one of them is zero
+        if torch.isfinite(log_scale):
+            scales = [[torch.exp(log_scale - n) for n in ns] for ns in log_norms]
+            for core, these_scales in zip(unmerged_list, scales):
+                core.rescale_norm(these_scales)
 
         # Add our unmerged module list as a new attribute and return
         # the updated bond dimensions
-- 
2.43.0


From 475659d7cccc3ec136755dd8a18efc0a900a6fc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:00 +0000
Subject: [PATCH 29/36] fix: svd_flex rejects strings which lose or repeat an
 index

The characters of the two outputs have to be a partition of those of the input,
plus the new bond. 'abc->ax,xb' passed the checks, and summed over c.
---
 torchmps/utils.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/torchmps/utils.py b/torchmps/utils.py
index d29c15c..7e2e6bb 100644
--- a/torchmps/utils.py
+++ b/torchmps/utils.py
@@ -63,6 +63,7 @@ def svd_flex(tensor, svd_string, max_D=None, cutoff=1e-10, sv_right=True, sv_vec
         # Check formatting of init_str, left_str, and right_str
         assert all([c.islower() for c in init_str + left_str + right_str])
         assert len(set(init_str + left_str + right_str)) == len(init_str) + 1
+        assert len(left_str + right_str) == len(init_str) + 2
         assert len(set(init_str)) + len(set(left_str)) + len(set(right_str)) == len(
             init_str
         ) + len(left_str) + len(right_str)
-- 
2.43.0


From b167cc9595f885c4fd74929fc00ab17d9962b555 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:29 +0000
Subject: [PATCH 30/36] fix: products of a scalar with edge vectors, output
 matrices, regions and lists

---
 torchmps/contractables.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/torchmps/contractables.py b/torchmps/contractables.py
index 6206251..9a6aaed 100644
--- a/torchmps/contractables.py
+++ b/torchmps/contractables.py
@@ -446,6 +446,10 @@ class Scalar(Contractable):
         """
         Multiply a contractable by our scalar and return the result
         """
+        # Composite contractables take care of the multiplication themselves
+        if not hasattr(contractable, "tensor"):
+            return NotImplemented
+
         scalar = self.tensor
         tensor = contractable.tensor
         bond_str = contractable.bond_str
@@ -455,7 +459,13 @@ class Scalar(Contractable):
 
         # Wrap the result in the same class right_contractable belongs to
         contract_class = type(contractable)
-        if contract_class is not Contractable:
+        if contract_class is MatRegion:
+            # Multiply the product of all the matrices, not each one of them
+            out_tensor = torch.cat([out_tensor[:, :1], tensor[:, 1:]], dim=1)
+            return MatRegion(out_tensor)
+        elif contract_class in (EdgeVec, OutputMat):
+            return contract_class(out_tensor, "r" in bond_str)
+        elif contract_class is not Contractable:
             return contract_class(out_tensor)
         else:
             return Contractable(out_tensor, bond_str)
-- 
2.43.0


From d62850d2a97083733f6e046e8fae5f28b32f1d5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:49 +0000
Subject: [PATCH 31/36] fix: products of edge vectors and regions check the
 orientation of the vectors

---
 torchmps/contractables.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/torchmps/contractables.py b/torchmps/contractables.py
index 9a6aaed..fbf9194 100644
--- a/torchmps/contractables.py
+++ b/torchmps/contractables.py
@@ -261,6 +261,9 @@ class MatRegion(Contractable):
         if not isinstance(edge_vec, EdgeVec):
             return NotImplemented
 
+        # The vector must have a free bond on the side facing our matrices
+        assert ("r" if rmul else "l") in edge_vec.bond_str
+
         mats = self.tensor
         num_mats = mats.size(1)
 
@@ -409,6 +412,9 @@ class EdgeVec(Contractable):
         if not isinstance(right_vec, EdgeVec):
             return NotImplemented
 
+        # Only a left vector and a right vector can be contracted together
+        assert "r" in self.bond_str and "l" in right_vec.bond_str
+
         left_vec = self.tensor.unsqueeze(1)
         right_vec = right_vec.tensor.unsqueeze(2)
         batch_size = left_vec.size(0)
-- 
2.43.0


From a18024b7b09971919b7eaab09858b6a35646cba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:19 +0000
Subject: [PATCH 32/36] fix: batch_to refuses tensors which don't fit into the
 batch shape

---
 torchmps/utils2.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/torchmps/utils2.py b/torchmps/utils2.py
index e58126c..f20d36e 100644
--- a/torchmps/utils2.py
+++ b/torchmps/utils2.py
@@ -72,7 +72,12 @@ def batch_to(tensor: Tensor, batch_shape: tuple, num_nonbatch: int):
         out_tensor: Broadcasted version of input tensor.
     """
     batch_ref = torch.empty(batch_shape)
-    out_tensor, _ = batch_broadcast((tensor, batch_ref), (num_nonbatch, 0))
+    out_tensor, out_ref = batch_broadcast((tensor, batch_ref), (num_nonbatch, 0))
+    if out_ref.shape != batch_ref.shape:
+        raise ValueError(
+            f"Tensor of shape {tuple(tensor.shape)} with {num_nonbatch} nonbatch "
+            f"indices can't be expanded to batch shape {tuple(batch_ref.shape)}"
+        )
     return out_tensor
 
 
-- 
2.43.0


From c91fb68296c6ad7c6979f250aaf982e7acb8c073 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:00 +0000
Subject: [PATCH 33/36] fix: generative models refuse inputs of the wrong
 length or dimension

---
 torchmps/mps_base.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/torchmps/mps_base.py b/torchmps/mps_base.py
index 452cdf5..bd55483 100644
--- a/torchmps/mps_base.py
+++ b/torchmps/mps_base.py
@@ -361,6 +361,8 @@ def get_mat_slices(seq_input: Tensor, core_tensor: Tensor) -> Tensor:
     uniform = core_tensor.ndim == 3
     input_dim, bond_dim = core_tensor.shape[-3:-1]
     seq_len = seq_input.shape[1]
+    assert uniform or seq_len == core_tensor.shape[0]
+    assert indexing or seq_input.shape[2] == input_dim
 
     # TODO: Deal with packing if/when we have variable-len sequences,
     #       likely using pad_mat_slices function
-- 
2.43.0


From 0a0665b932b1f6a7f96e123d08f152b8f9628dce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:48 +0000
Subject: [PATCH 34/36] fix: small integers and bools are indices of the cores,
 not masks

---
 torchmps/mps_base.py | 5 +++++
 torchmps/utils2.py   | 9 +++++++++
 2 files changed, 14 insertions(+)

diff --git a/torchmps/mps_base.py b/torchmps/mps_base.py
index bd55483..f74c2df 100644
--- a/torchmps/mps_base.py
+++ b/torchmps/mps_base.py
@@ -37,6 +37,7 @@ from torchmps.utils2 import (
     hermitian_trace,
     realify,
     CIndex,
+    index_tensor,
     nonzero_scale,
 )
 
@@ -83,6 +84,8 @@ def slim_eval_fun(seq_input: Tensor, core_tensor: Tensor, bound_vecs: Tensor) ->
         assert len(core_tensor) == seq_len
     if vec_input:
         assert seq_input.shape[-1] == core_tensor.shape[-3]
+    else:
+        seq_input = index_tensor(seq_input)
 
     # Promote seq_input to complex dtype if core_tensor is complex
     if core_tensor.is_complex() and seq_input.is_floating_point():
@@ -363,6 +366,8 @@ def get_mat_slices(seq_input: Tensor, core_tensor: Tensor) -> Tensor:
     seq_len = seq_input.shape[1]
     assert uniform or seq_len == core_tensor.shape[0]
     assert indexing or seq_input.shape[2] == input_dim
+    if indexing:
+        seq_input = index_tensor(seq_input)
 
     # TODO: Deal with packing if/when we have variable-len sequences,
     #       likely using pad_mat_slices function
diff --git a/torchmps/utils2.py b/torchmps/utils2.py
index f20d36e..e51e196 100644
--- a/torchmps/utils2.py
+++ b/torchmps/utils2.py
@@ -211,6 +211,15 @@ def nonzero_scale(scale: Tensor) -> Tensor:
     return torch.where(scale == 0, torch.ones_like(scale), scale)
 
 
+def index_tensor(tensor: Tensor) -> Tensor:
+    """
+    Convert small integers and bools to indices, where Pytorch assumes a mask
+    """
+    if tensor.is_floating_point() or tensor.is_complex():
+        return tensor
+    return tensor.long()
+
+
 log_2 = log(2)
 
 
-- 
2.43.0


From b6383957e59757b8cc366d5fdee0410f3a0a0074 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:26:03 +0000
Subject: [PATCH 35/36] fix: padding of sequences isn't fed to the feature map

---
 torchmps/torchmps.py | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/torchmps/torchmps.py b/torchmps/torchmps.py
index f98a0f6..262f3d9 100644
--- a/torchmps/torchmps.py
+++ b/torchmps/torchmps.py
@@ -180,24 +180,23 @@ class TI_MPS(nn.Module):
             # Pad the sequences with zeros (if needed), return as batch tensor
             if can_pad:
                 batch_size = len(input_data)
-                full_size = [batch_size, max_len, feature_dim]
+                dtype = self.core_tensor.dtype
                 batch_input = torch.zeros(
-                    full_size[: num_modes + 1], dtype=self.core_tensor.dtype
+                    [batch_size, max_len, feature_dim], dtype=dtype
                 )
 
-                # Copy each sequence into batch_input
+                # Copy each sequence into batch_input, embedding it (if needed)
+                # before, since the padding isn't data
                 for i, seq in enumerate(input_data):
+                    if num_modes == 1:
+                        seq = self.embed_input(seq[None].to(dtype))[0]
                     batch_input[i, : seq.size(0)] = seq
             else:
                 batch_input = torch.stack(input_data)
 
-            # Embed everything (if needed) and return the batch tensor
-            if len(batch_input.shape) == 2:
-                batch_input = self.embed_input(batch_input)
-
-                # The embedding of zero is generally nonzero, restore padding
-                for i, seq in enumerate(input_data):
-                    batch_input[i, seq.size(0) :] = 0
+                # Embed everything (if needed)
+                if num_modes == 1:
+                    batch_input = self.embed_input(batch_input)
 
             return batch_input
 
-- 
2.43.0


From 3899c05ad6eb504bed255ec834bd1b898ce7737e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:27:04 +0000
Subject: [PATCH 36/36] fix: empty sequences, and empty batches with a feature
 map

---
 torchmps/contractables.py | 12 +++++++++---
 torchmps/torchmps.py      | 14 ++++++++++++--
 2 files changed, 21 insertions(+), 5 deletions(-)

diff --git a/torchmps/contractables.py b/torchmps/contractables.py
index fbf9194..d962871 100644
--- a/torchmps/contractables.py
+++ b/torchmps/contractables.py
@@ -265,12 +265,11 @@ class MatRegion(Contractable):
         assert ("r" if rmul else "l") in edge_vec.bond_str
 
         mats = self.tensor
-        num_mats = mats.size(1)
 
         # Load our vector and matrix batches
         dummy_ind = 1 if rmul else 2
         vec = edge_vec.tensor.unsqueeze(dummy_ind)
-        mat_list = [mat.squeeze(1) for mat in torch.chunk(mats, num_mats, 1)]
+        mat_list = mats.unbind(1)
 
         # Do the repeated matrix-vector multiplications in the proper order
         for i, mat in enumerate(mat_list[:: (1 if rmul else -1)], 1):
@@ -296,6 +295,11 @@ class MatRegion(Contractable):
         shape = list(mats.shape)
         size, D = shape[1:3]
 
+        # The product of no matrices is the identity
+        if size == 0:
+            mat = torch.eye(D, dtype=mats.dtype, device=mats.device)
+            return SingleMat(mat.expand(shape[0], D, D))
+
         # Iteratively multiply pairs of matrices until there is only one
         while size > 1:
             odd_size = size % 2 == 1
@@ -465,7 +469,9 @@ class Scalar(Contractable):
 
         # Wrap the result in the same class right_contractable belongs to
         contract_class = type(contractable)
-        if contract_class is MatRegion:
+        if contract_class is MatRegion and tensor.size(1) == 0:
+            return self * contractable.reduce()
+        elif contract_class is MatRegion:
             # Multiply the product of all the matrices, not each one of them
             out_tensor = torch.cat([out_tensor[:, :1], tensor[:, 1:]], dim=1)
             return MatRegion(out_tensor)
diff --git a/torchmps/torchmps.py b/torchmps/torchmps.py
index 262f3d9..4b32a9c 100644
--- a/torchmps/torchmps.py
+++ b/torchmps/torchmps.py
@@ -226,8 +226,12 @@ class TI_MPS(nn.Module):
         feature_dim = self.feature_dim
         embedded_shape = [batch_dim, length, feature_dim]
 
+        # There's nothing to embed in empty batches or sequences
+        if input_data.numel() == 0:
+            embedded_data = torch.empty(embedded_shape, dtype=self.core_tensor.dtype)
+
         # Apply a custom embedding map if it has been defined by the user
-        if self.feature_map is not None:
+        elif self.feature_map is not None:
             f_map = self.feature_map
             embedded_data = torch.stack(
                 [torch.stack([f_map(x) for x in batch]) for batch in input_data]
@@ -527,8 +531,14 @@ class MPS(nn.Module):
                 )
             return input_data
 
+        # There's nothing to embed in empty batches
+        if input_data.numel() == 0:
+            embedded_data = input_data.new_empty(
+                [input_data.size(0), self.input_dim, self.feature_dim]
+            )
+
         # Apply a custom embedding map if it has been defined by the user
-        if self.feature_map is not None:
+        elif self.feature_map is not None:
             f_map = self.feature_map
             embedded_data = torch.stack(
                 [torch.stack([f_map(x) for x in batch]) for batch in input_data]
-- 
2.43.0

