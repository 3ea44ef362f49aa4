From d6d886d7e808d9fa87ca98f999b1f1e1af6bcb15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:33:00 +0000
Subject: [PATCH 01/32] fix: keep the root mode of a dependency CRF on the
 instance

The constructor stored the mode on the shared structure class, so building
a second distribution changed the answers of the first one.
---
 torch_struct/distributions.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/torch_struct/distributions.py b/torch_struct/distributions.py
index a309c28..c82260f 100644
--- a/torch_struct/distributions.py
+++ b/torch_struct/distributions.py
@@ -392,8 +392,14 @@ class DependencyCRF(StructDistribution):
 
     def __init__(self, log_potentials, lengths=None, args={}, multiroot=True, validate_args=False):
         super(DependencyCRF, self).__init__(log_potentials, lengths, args, validate_args=validate_args)
-        self.struct = DepTree
-        setattr(self.struct, "multiroot", multiroot)
+        self.multiroot = multiroot
+
+    struct = DepTree
+
+    def _struct(self, sr=None):
+        struct = super(DependencyCRF, self)._struct(sr)
+        struct.multiroot = self.multiroot
+        return struct
 
 
 class TreeCRF(StructDistribution):
-- 
2.43.0


From cdd5b628dc59ec7ff03f97ccf7e9701c1aa63745 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:33:00 +0000
Subject: [PATCH 02/32] fix: let structured sampling run under torch.no_grad

Samples are read from gradients, so sampling raised an error when gradient
recording was off.
---
 torch_struct/distributions.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/torch_struct/distributions.py b/torch_struct/distributions.py
index c82260f..f395792 100644
--- a/torch_struct/distributions.py
+++ b/torch_struct/distributions.py
@@ -224,9 +224,10 @@ class StructDistribution(Distribution):
         samples = []
         for k in range(nsamples):
             if k % 10 == 0:
-                sample = self._struct(MultiSampledSemiring).marginals(
-                    self.log_potentials, lengths=self.lengths
-                )
+                with torch.enable_grad():
+                    sample = self._struct(MultiSampledSemiring).marginals(
+                        self.log_potentials, lengths=self.lengths
+                    )
                 sample = sample.detach()
             tmp_sample = MultiSampledSemiring.to_discrete(sample, (k % 10) + 1)
             samples.append(tmp_sample)
-- 
2.43.0


From 7a365e9be319e9149740cee5956621758162bb26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:33:00 +0000
Subject: [PATCH 03/32] fix: support cross-entropy and KL for semi-Markov CRFs

Both raised an error because the pair of potentials was treated as one
tensor and the length mask was converted with the semiring.
---
 torch_struct/semimarkov.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/torch_struct/semimarkov.py b/torch_struct/semimarkov.py
index 257112e..08cc603 100644
--- a/torch_struct/semimarkov.py
+++ b/torch_struct/semimarkov.py
@@ -24,7 +24,6 @@ class SemiMarkov(_Struct):
         # Setup
         semiring = self.semiring
         ssize = semiring.size()
-        log_potentials.requires_grad_(True)
         log_potentials, batch, N, K, C, lengths = self._check_potentials(
             log_potentials, lengths
         )
@@ -66,7 +65,7 @@ class SemiMarkov(_Struct):
         mask_length = mask_length.to(log_potentials.device)
         for k in range(1, K - 1):
             mask_length_k = mask_length < (lengths - 1 - (k - 1)).view(batch, 1, 1)
-            mask_length_k = semiring.convert(mask_length_k)
+            mask_length_k = mask_length_k.unsqueeze(0)
             mask[:, :, :, k - 1, k].diagonal(0, -2, -1).masked_fill_(mask_length_k, True)
         init = semiring.fill(init, mask, semiring.one)
 
-- 
2.43.0


From 8b4c5b2ce70f514c23cdaadb95b629c1a18200bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:33:00 +0000
Subject: [PATCH 04/32] fix: support cross-entropy and KL for dependency CRFs

Both raised an error because the pair of potentials was treated as one
tensor.
---
 torch_struct/deptree.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/torch_struct/deptree.py b/torch_struct/deptree.py
index 8747d7e..a208e74 100644
--- a/torch_struct/deptree.py
+++ b/torch_struct/deptree.py
@@ -48,12 +48,17 @@ class DepTree(_Struct):
 
     def logpartition(self, arc_scores_in, lengths=None, force_grad=False):
         multiroot = getattr(self, "multiroot", True)
-        if arc_scores_in.dim() not in (3, 4):
+        pair = isinstance(arc_scores_in, list)
+        dim = arc_scores_in[0].dim() if pair else arc_scores_in.dim()
+        if dim not in (3, 4):
             raise ValueError("potentials must have dim of 3 (unlabeled) or 4 (labeled)")
 
-        labeled = arc_scores_in.dim() == 4
+        labeled = dim == 4
         semiring = self.semiring
-        arc_scores_in = convert(arc_scores_in)
+        if pair:
+            arc_scores_in = [convert(scores) for scores in arc_scores_in]
+        else:
+            arc_scores_in = convert(arc_scores_in)
         arc_scores_in, batch, N, lengths = self._check_potentials(
             arc_scores_in, lengths
         )
@@ -128,7 +133,7 @@ class DepTree(_Struct):
         batch, N, N2, *_ = self._get_dimension(arc_scores)
         assert N == N2, "Non-square potentials"
         if lengths is None:
-            lengths = torch.LongTensor([N - 1] * batch).to(arc_scores.device)
+            lengths = torch.LongTensor([N - 1] * batch)
         assert max(lengths) <= N, "Length longer than N"
         arc_scores = semiring.convert(arc_scores)
 
-- 
2.43.0


From 4016693a012062fed6c240c1ac7d638d2531c89a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:33:00 +0000
Subject: [PATCH 05/32] fix: honour lengths when converting segmentations to
 events

Positions beyond the given length were turned into segments.
---
 torch_struct/semimarkov.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/torch_struct/semimarkov.py b/torch_struct/semimarkov.py
index 08cc603..003e6b7 100644
--- a/torch_struct/semimarkov.py
+++ b/torch_struct/semimarkov.py
@@ -140,7 +140,7 @@ class SemiMarkov(_Struct):
         for b in range(batch):
             last = None
             c = None
-            for n in range(0, N):
+            for n in range(0, lengths[b]):
                 if sequence[b, n] == -1:
                     assert n != 0
                     continue
-- 
2.43.0


From 45ec54e2e54a57c350068e81e5d8f45ce7831d01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:33:39 +0000
Subject: [PATCH 06/32] fix: backward pass of checkpointed matrix products

Sharded products raised an error when no operand dimension had size one,
and both wrappers raised an error when only one operand required a gradient.
---
 torch_struct/semirings/checkpoint.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/torch_struct/semirings/checkpoint.py b/torch_struct/semirings/checkpoint.py
index f65eec1..feb985e 100644
--- a/torch_struct/semirings/checkpoint.py
+++ b/torch_struct/semirings/checkpoint.py
@@ -32,8 +32,10 @@ def CheckpointSemiring(cls, min_size=0):
         def backward(ctx, grad_output):
             a, b = ctx.saved_tensors
             with torch.enable_grad():
-                q = cls.matmul(a, b)
-                return torch.autograd.grad(q, (a, b), grad_output)
+                a_in = a.detach().requires_grad_(True)
+                b_in = b.detach().requires_grad_(True)
+                q = cls.matmul(a_in, b_in)
+                return torch.autograd.grad(q, (a_in, b_in), grad_output)
 
     class _CheckBand(torch.autograd.Function):
         @staticmethod
@@ -159,8 +161,8 @@ def unaccumulate_(a, b, grad_output, preserve, fn, step=10000):
         with torch.enable_grad():
             a_in = a.clone().requires_grad_(True)
             b_in = b.clone().requires_grad_(True)
-            q = fn(a, b)
-        ag, bg = torch.autograd.grad(q, (a, b), grad_output)
+            q = fn(a_in, b_in)
+        ag, bg = torch.autograd.grad(q, (a_in, b_in), grad_output)
         return ag, bg
 
     a2 = a.expand(*size[:-2], a.shape[-2], a.shape[-1])
@@ -185,7 +187,8 @@ def unaccumulate_(a, b, grad_output, preserve, fn, step=10000):
     b_grad = b_grad.view(*size[:-2], b.shape[-2], b.shape[-1])
     a_ones = ones(a)
     b_ones = ones(b)
-    f1, f2 = a_grad.sum(a_ones, keepdim=True), b_grad.sum(b_ones, keepdim=True)
+    f1 = a_grad.sum(a_ones, keepdim=True) if a_ones else a_grad
+    f2 = b_grad.sum(b_ones, keepdim=True) if b_ones else b_grad
     return f1, f2
 
 
-- 
2.43.0


From 1502ac5fb4cb3f08e0f55c43d43bc6b8a2fcf72d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:33:39 +0000
Subject: [PATCH 07/32] fix: log_prob of non-projective dependency CRFs

It raised an error because the distribution has no structure class.
---
 torch_struct/distributions.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/torch_struct/distributions.py b/torch_struct/distributions.py
index f395792..65b7e0e 100644
--- a/torch_struct/distributions.py
+++ b/torch_struct/distributions.py
@@ -2,6 +2,7 @@ import torch
 from torch.distributions import constraints
 from torch.distributions.distribution import Distribution
 from torch.distributions.utils import lazy_property
+from .helpers import _Struct
 from .linearchain import LinearChain
 from .cky import CKY
 from .semimarkov import SemiMarkov
@@ -493,6 +494,9 @@ class NonProjectiveDependencyCRF(StructDistribution):
         super(NonProjectiveDependencyCRF, self).__init__(log_potentials, lengths, args, validate_args=validate_args)
         self.multiroot = multiroot
 
+    def _struct(self, sr=None):
+        return _Struct(sr if sr is not None else LogSemiring)
+
     @lazy_property
     def marginals(self):
         """
-- 
2.43.0


From 1864daa19cd7b689ca70a25efa0ae8b7cc7c232d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:33:39 +0000
Subject: [PATCH 08/32] fix: do not add noise in greedy_tempmax

The temperature was passed as the flag that adds Gumbel noise to the scores.
---
 torch_struct/autoregressive.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/torch_struct/autoregressive.py b/torch_struct/autoregressive.py
index e3eb49f..928f548 100644
--- a/torch_struct/autoregressive.py
+++ b/torch_struct/autoregressive.py
@@ -218,7 +218,7 @@ class Autoregressive(Distribution):
             greedy_max (*batch*)
             logits (*batch x N x C*)
         """
-        a, b, c = self._beam_search(TempMax(alpha), alpha)
+        a, b, c = self._beam_search(TempMax(alpha))
         return a.squeeze(0), b.squeeze(0), c.squeeze(0)
 
     def beam_topk(self, K):
-- 
2.43.0


From f51e27d70091b13ea261ec4a33cfc5b122424359 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:33:39 +0000
Subject: [PATCH 09/32] fix: draw independent Gumbel noise for every choice

One noise vector was shared by all positions and batch elements, so draws
did not follow the distribution.
---
 torch_struct/semirings/sample.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/torch_struct/semirings/sample.py b/torch_struct/semirings/sample.py
index 09ec189..2e258d5 100644
--- a/torch_struct/semirings/sample.py
+++ b/torch_struct/semirings/sample.py
@@ -69,7 +69,7 @@ def GumbelMaxSemiring(temp):
                 def sample(ls):
                     pre_shape = ls.shape
                     update = (
-                        ls + torch.distributions.Gumbel(0, 1).sample((ls.shape[-1],))
+                        ls + torch.distributions.Gumbel(0, 1).sample(ls.shape)
                     ) / temp
                     out = torch.nn.functional.one_hot(update.max(-1)[1], pre_shape[-1])
                     return out
@@ -127,7 +127,7 @@ def GumbelCRFSemiring(temp):
 
                 def sample(ls):
                     update = (
-                        ls + torch.distributions.Gumbel(0, 1).sample((ls.shape[-1],))
+                        ls + torch.distributions.Gumbel(0, 1).sample(ls.shape)
                     ) / temp
                     out = ST.apply(update, ls.shape[-1])
                     return out
-- 
2.43.0


From b8393c4170972f396340cb2c3849ff1e5a5bac92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:33:39 +0000
Subject: [PATCH 10/32] fix: log_prob of sentence grammars

It raised an error because grammar events are tuples.
---
 torch_struct/distributions.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/torch_struct/distributions.py b/torch_struct/distributions.py
index 65b7e0e..671c11e 100644
--- a/torch_struct/distributions.py
+++ b/torch_struct/distributions.py
@@ -463,6 +463,18 @@ class SentCFG(StructDistribution):
             batch_shape=batch_shape, event_shape=event_shape, validate_args=validate_args
         )
 
+    def log_prob(self, value):
+        """
+        Compute log probability over values :math:`p(z)`.
+
+        Parameters:
+            value (tuple): terms, rules and root uses (*batch_shape x event_shape*)
+
+        Returns:
+            log_probs (*batch_shape*)
+        """
+        return self._struct().score(self.log_potentials, value) - self.partition
+
 
 class NonProjectiveDependencyCRF(StructDistribution):
     r"""
-- 
2.43.0


From 9f3d670f307a6911328bde47cc281d6c5531a34c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:34:55 +0000
Subject: [PATCH 11/32] fix: score events against non-contiguous potentials

---
 torch_struct/cky.py     | 6 +++---
 torch_struct/helpers.py | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/torch_struct/cky.py b/torch_struct/cky.py
index 60b4cc1..d82f5cd 100644
--- a/torch_struct/cky.py
+++ b/torch_struct/cky.py
@@ -147,9 +147,9 @@ class CKY(_Struct):
         m_term, m_rule, m_root = parts[:3]
         b = m_term.shape[0]
         return (
-            m_term.mul(terms).view(b, -1).sum(-1)
-            + m_rule.mul(rules).view(b, -1).sum(-1)
-            + m_root.mul(roots).view(b, -1).sum(-1)
+            m_term.mul(terms).reshape(b, -1).sum(-1)
+            + m_rule.mul(rules).reshape(b, -1).sum(-1)
+            + m_root.mul(roots).reshape(b, -1).sum(-1)
         )
 
     @staticmethod
diff --git a/torch_struct/helpers.py b/torch_struct/helpers.py
index a8d2848..85f0c13 100644
--- a/torch_struct/helpers.py
+++ b/torch_struct/helpers.py
@@ -31,7 +31,7 @@ class _Struct:
     def score(self, potentials, parts, batch_dims=[0]):
         score = torch.mul(potentials, parts)
         batch = tuple((score.shape[b] for b in batch_dims))
-        return self.semiring.prod(score.view(batch + (-1,)))
+        return self.semiring.prod(score.reshape(batch + (-1,)))
 
     def _bin_length(self, length):
         log_N = int(math.ceil(math.log(length, 2)))
-- 
2.43.0


From e6aba7f50f0a1d1a2a8f9951abf5c06024c969f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:34:55 +0000
Subject: [PATCH 12/32] fix: accept non-contiguous HMM observations

---
 torch_struct/linearchain.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/torch_struct/linearchain.py b/torch_struct/linearchain.py
index 1a8dc2e..af612e4 100644
--- a/torch_struct/linearchain.py
+++ b/torch_struct/linearchain.py
@@ -151,7 +151,7 @@ class LinearChain(_Struct):
         scores = torch.zeros(batch, N - 1, C, C).type_as(emission)
         scores[:, :, :, :] += transition.view(1, 1, C, C)
         scores[:, 0, :, :] += init.view(1, 1, C)
-        obs = emission[observations.view(batch * N), :]
+        obs = emission[observations.reshape(batch * N), :]
         scores[:, :, :, :] += obs.view(batch, N, C, 1)[:, 1:]
         scores[:, 0, :, :] += obs.view(batch, N, 1, C)[:, 0]
         return scores
-- 
2.43.0


From 2257902eb58b53128501c3c34a82b14bd04c5f15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:45:17 +0000
Subject: [PATCH 13/32] fix: convert grammar trees to parts when no lengths are
 given

---
 torch_struct/cky.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/torch_struct/cky.py b/torch_struct/cky.py
index d82f5cd..c76389a 100644
--- a/torch_struct/cky.py
+++ b/torch_struct/cky.py
@@ -161,6 +161,8 @@ class CKY(_Struct):
         terms = torch.zeros(batch, N, T)
         rules = torch.zeros(batch, NT, S, S)
         roots = torch.zeros(batch, NT)
+        if lengths is None:
+            lengths = [N] * batch
         for b in range(batch):
             roots[b, :] = spans[b, 0, lengths[b] - 1, :NT]
             terms[b, : lengths[b]] = spans[
-- 
2.43.0


From 4dbe4772ea4f1c85d21e1b9f54f1765e47d42d3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:46:12 +0000
Subject: [PATCH 14/32] fix: let one-position semi-Markov structures convert
 back to an event

---
 torch_struct/semimarkov.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/torch_struct/semimarkov.py b/torch_struct/semimarkov.py
index 003e6b7..544dd6a 100644
--- a/torch_struct/semimarkov.py
+++ b/torch_struct/semimarkov.py
@@ -142,7 +142,7 @@ class SemiMarkov(_Struct):
             c = None
             for n in range(0, lengths[b]):
                 if sequence[b, n] == -1:
-                    assert n != 0
+                    assert n != 0 or lengths[b] == 1
                     continue
                 else:
                     new_c = sequence[b, n]
-- 
2.43.0


From abd1de05a56f76723e498b71c91d9c2d090a3aeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:02:25 +0000
Subject: [PATCH 15/32] fix: checkpoint structures whose charts are updated in
 place

---
 torch_struct/semirings/checkpoint.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/torch_struct/semirings/checkpoint.py b/torch_struct/semirings/checkpoint.py
index feb985e..01cdcc4 100644
--- a/torch_struct/semirings/checkpoint.py
+++ b/torch_struct/semirings/checkpoint.py
@@ -64,7 +64,8 @@ def CheckpointSemiring(cls, min_size=0):
                 return BandedMatrix(c, lu, ld, cls.zero)
 
             if broadcast_size(a, b) > min_size:
-                return _Check.apply(a, b)
+                # The operands can be views of a chart that is updated in place later.
+                return _Check.apply(a.clone(), b.clone())
             else:
                 return cls.matmul(a, b)
 
@@ -106,7 +107,8 @@ def CheckpointShardSemiring(cls, max_size, min_size=0):
             if size < min_size:
                 return cls.matmul(a, b)
             else:
-                return _Check.apply(a, b)
+                # The operands can be views of a chart that is updated in place later.
+                return _Check.apply(a.clone(), b.clone())
 
     return _CheckpointSemiring
 
-- 
2.43.0


From 6a8bdb79e19a34006658bcba804cc02de5870f28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:02:38 +0000
Subject: [PATCH 16/32] fix: project onto the simplex along any axis

---
 torch_struct/semirings/sparse_max.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/torch_struct/semirings/sparse_max.py b/torch_struct/semirings/sparse_max.py
index ef688eb..f3c6305 100644
--- a/torch_struct/semirings/sparse_max.py
+++ b/torch_struct/semirings/sparse_max.py
@@ -54,6 +54,9 @@ def project_simplex(v, dim, z=1):
     v_sorted, _ = torch.sort(v, dim=dim, descending=True)
     cssv = torch.cumsum(v_sorted, dim=dim) - z
     ind = torch.arange(1, 1 + v.shape[dim]).to(dtype=v.dtype).to(v.device)
+    shape = [1] * v.dim()
+    shape[dim] = -1
+    ind = ind.view(shape)
     cond = v_sorted - cssv / ind >= 0
     k = cond.sum(dim=dim, keepdim=True)
     tau = cssv.gather(dim, k - 1) / k.to(dtype=v.dtype)
-- 
2.43.0


From fcfc3f54fac8897d732f301bff0b76270475e0c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:08:52 +0000
Subject: [PATCH 17/32] fix: count the trees of a grammar

---
 torch_struct/distributions.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/torch_struct/distributions.py b/torch_struct/distributions.py
index 671c11e..982d624 100644
--- a/torch_struct/distributions.py
+++ b/torch_struct/distributions.py
@@ -475,6 +475,15 @@ class SentCFG(StructDistribution):
         """
         return self._struct().score(self.log_potentials, value) - self.partition
 
+    @lazy_property
+    def count(self):
+        "Compute the number of trees."
+        ones = tuple(
+            torch.where(p.eq(-float("inf")), torch.zeros_like(p), torch.ones_like(p))
+            for p in self.log_potentials
+        )
+        return self._struct(StdSemiring).sum(ones, self.lengths)
+
 
 class NonProjectiveDependencyCRF(StructDistribution):
     r"""
-- 
2.43.0


From 191e84f98af73b112264c1a3b9acb68c2800d979 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:09:12 +0000
Subject: [PATCH 18/32] fix: cross-entropy and KL between grammars

---
 torch_struct/cky.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/torch_struct/cky.py b/torch_struct/cky.py
index c76389a..8eb4d23 100644
--- a/torch_struct/cky.py
+++ b/torch_struct/cky.py
@@ -10,11 +10,17 @@ class CKY(_Struct):
         semiring = self.semiring
 
         # Checks
-        terms, rules, roots = scores
-        rules.requires_grad_(True)
+        if isinstance(scores[0], (tuple, list)):
+            # One set of scores per distribution, for the two-distribution semirings.
+            terms, rules, roots = (list(s) for s in zip(*scores))
+            batch, N, T = terms[0].shape
+            _, NT, _, _ = rules[0].shape
+        else:
+            terms, rules, roots = scores
+            rules.requires_grad_(True)
+            batch, N, T = terms.shape
+            _, NT, _, _ = rules.shape
         ssize = semiring.size()
-        batch, N, T = terms.shape
-        _, NT, _, _ = rules.shape
         S = NT + T
 
         terms, rules, roots = (
-- 
2.43.0


From 9417da5a0c5bcaa67489401f6bb09ea96fefd2f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:09:31 +0000
Subject: [PATCH 19/32] fix: convert the events of a grammar to span tables

---
 torch_struct/cky.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/torch_struct/cky.py b/torch_struct/cky.py
index 8eb4d23..238159b 100644
--- a/torch_struct/cky.py
+++ b/torch_struct/cky.py
@@ -196,6 +196,18 @@ class CKY(_Struct):
 
     @staticmethod
     def from_parts(chart):
+        if len(chart) == 4:
+            # The event of the distribution, with spans by width and start.
+            terms, rules, roots, chart = chart
+            batch, N, _, NT = chart.shape
+            S = rules.shape[-1]
+            spans = torch.zeros(batch, N, N, S, dtype=rules.dtype, device=rules.device)
+            for n in range(N - 1):
+                spans[:, torch.arange(N - n - 1), torch.arange(n + 1, N), :NT] = chart[
+                    :, n, torch.arange(N - n - 1)
+                ]
+            spans[:, torch.arange(N), torch.arange(N), NT:] = terms
+            return spans, (NT, S - NT)
         terms, rules, roots = chart
         batch, N, N, NT, S, S = rules.shape
         assert terms.shape[1] == N
-- 
2.43.0


From 37a924aa7f91aff402d1804dc8c09ce6cf48eea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:10:02 +0000
Subject: [PATCH 20/32] fix: sample trees from a grammar

---
 torch_struct/distributions.py | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/torch_struct/distributions.py b/torch_struct/distributions.py
index 982d624..4b58934 100644
--- a/torch_struct/distributions.py
+++ b/torch_struct/distributions.py
@@ -16,6 +16,7 @@ from .semirings import (
     CrossEntropySemiring,
     KLDivergenceSemiring,
     MultiSampledSemiring,
+    SampledSemiring,
     KMaxSemiring,
     StdSemiring,
     GumbelCRFSemiring,
@@ -475,6 +476,27 @@ class SentCFG(StructDistribution):
         """
         return self._struct().score(self.log_potentials, value) - self.partition
 
+    def sample(self, sample_shape=torch.Size()):
+        r"""
+        Compute structured samples from the distribution :math:`z \sim p(z)`.
+
+        Parameters:
+            sample_shape (int): number of samples
+
+        Returns:
+            samples (tuple): terms, rules, root and span uses
+                             (*sample_shape x batch_shape x event_shape*)
+        """
+        assert len(sample_shape) == 1
+        samples = []
+        for _ in range(sample_shape[0]):
+            with torch.enable_grad():
+                sample = self._struct(SampledSemiring).marginals(
+                    self.log_potentials, lengths=self.lengths
+                )
+            samples.append([part.detach() for part in sample])
+        return tuple(torch.stack(parts) for parts in zip(*samples))
+
     @lazy_property
     def count(self):
         "Compute the number of trees."
-- 
2.43.0


From f09da136d344f2b2c7c460d3fa679c719e7b9ba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:14:44 +0000
Subject: [PATCH 21/32] fix: score samples of grammar trees

---
 torch_struct/cky.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/torch_struct/cky.py b/torch_struct/cky.py
index 238159b..34159ab 100644
--- a/torch_struct/cky.py
+++ b/torch_struct/cky.py
@@ -151,11 +151,10 @@ class CKY(_Struct):
     def score(self, potentials, parts):
         terms, rules, roots = potentials[:3]
         m_term, m_rule, m_root = parts[:3]
-        b = m_term.shape[0]
         return (
-            m_term.mul(terms).reshape(b, -1).sum(-1)
-            + m_rule.mul(rules).reshape(b, -1).sum(-1)
-            + m_root.mul(roots).reshape(b, -1).sum(-1)
+            m_term.mul(terms).flatten(-2).sum(-1)
+            + m_rule.mul(rules).flatten(-3).sum(-1)
+            + m_root.mul(roots).sum(-1)
         )
 
     @staticmethod
-- 
2.43.0


From d9d838f0c2d42c73cbf256cda09f40bf762a103c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:22:07 +0000
Subject: [PATCH 22/32] fix: accept grammar scores of any memory layout

CKY raised a RuntimeError when the term scores were not contiguous,
for example when they came from a transpose.
---
 torch_struct/cky.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/torch_struct/cky.py b/torch_struct/cky.py
index 34159ab..6b7be90 100644
--- a/torch_struct/cky.py
+++ b/torch_struct/cky.py
@@ -65,14 +65,14 @@ class CKY(_Struct):
             Z_term = term_use[..., w:, None, :]
 
             Y = Y[..., -1, :].unsqueeze(-1)
-            X2 = matmul(times(Y, Z_term).view(*v2), X_Y_Z1)
+            X2 = matmul(times(Y, Z_term).reshape(*v2), X_Y_Z1)
 
             Z = Z[..., 0, :].unsqueeze(-2)
-            X3 = matmul(times(Y_term, Z).view(*v2), X_Y1_Z)
+            X3 = matmul(times(Y_term, Z).reshape(*v2), X_Y1_Z)
             all_span += [X2, X3]
 
             if w == 1:
-                X4 = matmul(times(Y_term, Z_term).view(*v2), X_Y1_Z1)
+                X4 = matmul(times(Y_term, Z_term).reshape(*v2), X_Y1_Z1)
                 all_span.append(X4)
 
             span[w] = semiring.sum(torch.stack(all_span, dim=-1))
-- 
2.43.0


From 3e74e567ac7fb8f676ce0f9080f8c91a85daf195 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:22:07 +0000
Subject: [PATCH 23/32] fix: accept non-contiguous gradients in the sharded
 matmul

The backward pass of CheckpointShardSemiring raised a RuntimeError when
the gradient it received was not contiguous.
---
 torch_struct/semirings/checkpoint.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/torch_struct/semirings/checkpoint.py b/torch_struct/semirings/checkpoint.py
index 01cdcc4..b988bb9 100644
--- a/torch_struct/semirings/checkpoint.py
+++ b/torch_struct/semirings/checkpoint.py
@@ -175,7 +175,7 @@ def unaccumulate_(a, b, grad_output, preserve, fn, step=10000):
     a_grad = a2.clone().fill_(0)
     b_grad = b2.clone().fill_(0)
 
-    grad_output = grad_output.view(-1, a.shape[-2], b.shape[-1])
+    grad_output = grad_output.reshape(-1, a.shape[-2], b.shape[-1])
     for p in range(0, grad_output.shape[0], step):
         with torch.enable_grad():
             a_in = a2[p : p + step].clone().requires_grad_(True)
-- 
2.43.0


From ab092df4ba9fc62694455b539069f416f1f31ed8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:23:06 +0000
Subject: [PATCH 24/32] fix: let validate_args accept missing lengths and
 grammar potentials

With validate_args=True every distribution built without lengths raised,
and so did every SentCFG, because the constraints were applied to None
and to a tuple.
---
 torch_struct/distributions.py | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/torch_struct/distributions.py b/torch_struct/distributions.py
index 4b58934..5b1484d 100644
--- a/torch_struct/distributions.py
+++ b/torch_struct/distributions.py
@@ -23,6 +23,19 @@ from .semirings import (
 )
 
 
+class _Each(constraints.Constraint):
+    "Constraint on a tensor, each of several tensors, or nothing."
+
+    def __init__(self, base):
+        self.base = base
+        super().__init__()
+
+    def check(self, value):
+        if not isinstance(value, (tuple, list)):
+            value = [] if value is None else [value]
+        return torch.tensor(all(bool(self.base.check(v).all()) for v in value))
+
+
 class StructDistribution(Distribution):
     r"""
     Base structured distribution class.
@@ -40,8 +53,8 @@ class StructDistribution(Distribution):
         lengths (long tensor, batch_shape) : integers for length masking
     """
     arg_constraints = {
-        "log_potentials": constraints.real,
-        "lengths": constraints.nonnegative_integer
+        "log_potentials": _Each(constraints.real),
+        "lengths": _Each(constraints.nonnegative_integer)
     }
 
     def __init__(self, log_potentials, lengths=None, args={}, validate_args=False):
-- 
2.43.0


From 441094885fca074bcc1b5700bdc5e3989bdfac08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:23:06 +0000
Subject: [PATCH 25/32] fix: refuse span scores that are not square

TreeCRF answered for scores of shape batch x 1 x M x labels.
---
 torch_struct/cky_crf.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/torch_struct/cky_crf.py b/torch_struct/cky_crf.py
index f9e16a1..74294f2 100644
--- a/torch_struct/cky_crf.py
+++ b/torch_struct/cky_crf.py
@@ -6,7 +6,8 @@ A, B = 0, 1
 
 class CKY_CRF(_Struct):
     def _check_potentials(self, edge, lengths=None):
-        batch, N, _, NT = self._get_dimension(edge)
+        batch, N, N2, NT = self._get_dimension(edge)
+        assert N == N2, "Non-square potentials"
         edge = self.semiring.convert(edge)
         if lengths is None:
             lengths = torch.LongTensor([N] * batch).to(edge.device)
-- 
2.43.0


From af33dcc2b0e716f22e0edc7d98506cc2e2c69672 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 02:00:24 +0000
Subject: [PATCH 26/32] fix: back-propagate through sparsemax weights

The derivative of the weights was attached to a saved tensor that is not
connected to the input, so a second backward pass found no path.
---
 torch_struct/semirings/sparse_max.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/torch_struct/semirings/sparse_max.py b/torch_struct/semirings/sparse_max.py
index f3c6305..c395569 100644
--- a/torch_struct/semirings/sparse_max.py
+++ b/torch_struct/semirings/sparse_max.py
@@ -29,25 +29,24 @@ class _SimplexProject(torch.autograd.Function):
     @staticmethod
     def backward(ctx, grad_output):
         input, w_star, dim = ctx.saved_tensors
-        w_star.requires_grad_(True)
 
         grad_input = None
         if ctx.needs_input_grad[0]:
-            wstar = _SparseMaxGrad.apply(w_star, dim)
+            wstar = _SparseMaxGrad.apply(input, w_star, dim)
             grad_input = grad_output.unsqueeze(dim).mul(wstar)
         return grad_input, None, None
 
 
 class _SparseMaxGrad(torch.autograd.Function):
     @staticmethod
-    def forward(ctx, w_star, dim):
+    def forward(ctx, input, w_star, dim):
         ctx.save_for_backward(w_star, dim)
-        return w_star
+        return w_star.clone()
 
     @staticmethod
     def backward(ctx, grad_output):
         w_star, dim = ctx.saved_tensors
-        return sparsemax_grad(grad_output, w_star, dim.item()), None
+        return sparsemax_grad(grad_output, w_star, dim.item()), None, None
 
 
 def project_simplex(v, dim, z=1):
-- 
2.43.0


From 466c4092b429147107b9dcd9b0a4b3b8d8b00dac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 03:01:43 +0000
Subject: [PATCH 27/32] fix: search autoregressive models under no_grad

---
 torch_struct/autoregressive.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/torch_struct/autoregressive.py b/torch_struct/autoregressive.py
index 928f548..941a48c 100644
--- a/torch_struct/autoregressive.py
+++ b/torch_struct/autoregressive.py
@@ -117,6 +117,7 @@ class Autoregressive(Distribution):
         scores = log_probs[:, :-1].gather(2, value[:, 1:].unsqueeze(-1)).sum(-1).sum(-1)
         return wrap(scores, sample)
 
+    @torch.enable_grad()
     def _beam_search(self, semiring, gumbel=False):
         beam = semiring.fill(
             torch.zeros((semiring.size(),) + self.batch_shape, device=self.device),
-- 
2.43.0


From 7d73f410816174a84781a87dea3eefcb79cfab1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 03:46:44 +0000
Subject: [PATCH 28/32] fix: ignore segments that cross the end of a shorter
 segmentation

Their potentials belong to the padding, but entered the chart.  Values
above 1e5, infinities and NaN there changed or spoiled the answers.
---
 torch_struct/semimarkov.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/torch_struct/semimarkov.py b/torch_struct/semimarkov.py
index 544dd6a..45815a5 100644
--- a/torch_struct/semimarkov.py
+++ b/torch_struct/semimarkov.py
@@ -57,6 +57,10 @@ class SemiMarkov(_Struct):
         mask = mask.view(batch * bin_N, 1, 1, 1).to(lp.device)
         lp.data[:] = semiring.fill(lp.data, mask, semiring.zero)
         c.data[:, :, :, 0] = semiring.fill(c.data[:, :, :, 0], (~mask), semiring.zero)
+        ends = torch.arange(bin_N).view(1, bin_N, 1) + torch.arange(K)
+        ends = ends.to(log_potentials.device) > (lengths - 1).view(batch, 1, 1)
+        ends = ends.view(batch * bin_N, K, 1, 1)
+        lp.data[:] = semiring.fill(lp.data, ends, semiring.zero)
         c[:, :, : K - 1, 0] = semiring.sum(
             torch.stack([c.data[:, :, : K - 1, 0], lp[:, :, 1:K]], dim=-1)
         )
-- 
2.43.0


From 9e5da28a91d269d5659578620e88ece5382864d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 03:46:44 +0000
Subject: [PATCH 29/32] fix: keep infinite padding out of span charts

Spans beyond the length entered the chart.  They never reached the
answer, but an infinite one made marginals and samples NaN.
---
 torch_struct/cky_crf.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/torch_struct/cky_crf.py b/torch_struct/cky_crf.py
index 74294f2..4997542 100644
--- a/torch_struct/cky_crf.py
+++ b/torch_struct/cky_crf.py
@@ -22,7 +22,9 @@ class CKY_CRF(_Struct):
         L_DIM, R_DIM = 2, 3
 
         # Initialize
-        reduced_scores = semiring.sum(scores)
+        keep = torch.arange(N, device=scores.device) < lengths.view(batch, 1)
+        keep = (keep.unsqueeze(2) & keep.unsqueeze(1)).unsqueeze(-1)
+        reduced_scores = semiring.sum(semiring.fill(scores, ~keep, semiring.zero))
         term = reduced_scores.diagonal(0, L_DIM, R_DIM)
         ns = torch.arange(N)
         beta[A][ns, 0] = term
-- 
2.43.0


From 4851831e40062130774bccef81225957ad7caba3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 03:46:58 +0000
Subject: [PATCH 30/32] fix: keep infinite padding out of grammar charts

Words beyond the length entered the chart.  They never reached the
answer, but an infinite one made marginals and samples NaN.
---
 torch_struct/cky.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/torch_struct/cky.py b/torch_struct/cky.py
index 6b7be90..f66916f 100644
--- a/torch_struct/cky.py
+++ b/torch_struct/cky.py
@@ -35,7 +35,8 @@ class CKY(_Struct):
         beta = [Chart((batch, N, N, NT), rules, semiring) for _ in range(2)]
         span = [None for _ in range(N)]
         v = (ssize, batch)
-        term_use = terms + 0.0
+        keep = torch.stack([torch.arange(N) < l for l in lengths]).unsqueeze(-1)
+        term_use = semiring.fill(terms + 0.0, ~keep, semiring.zero)
 
         # Split into NT/T groups
         NTs = slice(0, NT)
-- 
2.43.0


From 1db53b2bb22790479dfcd5fe907ffcea492581b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 03:48:09 +0000
Subject: [PATCH 31/32] fix: replace non-projective padding instead of adding
 to it

Adding minus infinity to a score of infinity or NaN gives NaN.
---
 torch_struct/deptree.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/torch_struct/deptree.py b/torch_struct/deptree.py
index a208e74..c8319cf 100644
--- a/torch_struct/deptree.py
+++ b/torch_struct/deptree.py
@@ -208,7 +208,7 @@ def deptree_part(arc_scores, multi_root, lengths=None, eps=1e-5):
         mask = mask.float()
         mask[mask == 0] = float("-inf")
         mask[mask == 1] = 0
-        arc_scores = arc_scores + mask
+        arc_scores = torch.where(mask == 0, arc_scores, mask.type_as(arc_scores))
     input = arc_scores
     eye = torch.eye(input.shape[1], device=input.device)
     laplacian = input.exp() + eps
@@ -256,7 +256,7 @@ def deptree_nonproj(arc_scores, multi_root, lengths=None, eps=1e-5):
         mask = mask.float()
         mask[mask == 0] = float("-inf")
         mask[mask == 1] = 0
-        arc_scores = arc_scores + mask
+        arc_scores = torch.where(mask == 0, arc_scores, mask.type_as(arc_scores))
 
     input = arc_scores
     eye = torch.eye(input.shape[1], device=input.device)
-- 
2.43.0


From 2d7cb6901da143caa6323b18ffdddbb7ef6a3dc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 03:48:09 +0000
Subject: [PATCH 32/32] fix: score absent parts as nothing

An absent part was multiplied by its potential, so infinite padding made
log-probabilities NaN.
---
 torch_struct/cky.py     | 1 +
 torch_struct/helpers.py | 7 +++++++
 2 files changed, 8 insertions(+)

diff --git a/torch_struct/cky.py b/torch_struct/cky.py
index f66916f..3e1c8cd 100644
--- a/torch_struct/cky.py
+++ b/torch_struct/cky.py
@@ -152,6 +152,7 @@ class CKY(_Struct):
     def score(self, potentials, parts):
         terms, rules, roots = potentials[:3]
         m_term, m_rule, m_root = parts[:3]
+        terms = self._present(terms, m_term)
         return (
             m_term.mul(terms).flatten(-2).sum(-1)
             + m_rule.mul(rules).flatten(-3).sum(-1)
diff --git a/torch_struct/helpers.py b/torch_struct/helpers.py
index 85f0c13..be017d3 100644
--- a/torch_struct/helpers.py
+++ b/torch_struct/helpers.py
@@ -29,10 +29,17 @@ class _Struct:
         self.semiring = semiring
 
     def score(self, potentials, parts, batch_dims=[0]):
+        potentials = self._present(potentials, parts)
         score = torch.mul(potentials, parts)
         batch = tuple((score.shape[b] for b in batch_dims))
         return self.semiring.prod(score.reshape(batch + (-1,)))
 
+    @staticmethod
+    def _present(potentials, parts):
+        "The potentials, without infinite ones of absent parts."
+        absent = parts.eq(0) & ~torch.isfinite(potentials)
+        return torch.where(absent, torch.zeros_like(potentials), potentials)
+
     def _bin_length(self, length):
         log_N = int(math.ceil(math.log(length, 2)))
         bin_N = int(math.pow(2, log_N))
-- 
2.43.0

