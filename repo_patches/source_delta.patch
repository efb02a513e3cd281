From e6d4d05e84c25cd13cbe9989a9c2ae61e7d4a82a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:40 +0000
Subject: [PATCH 01/10] fix: make find_heuristic_1pc work when edges are left
 uncovered

The uncovered edges are collected into a set of numpy arrays, which are
unhashable, so every graph with an edge outside the neighbourhoods of the
chosen independent set (e.g. a path on four vertices) raised TypeError.
---
 medil/ecc_algorithms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/medil/ecc_algorithms.py b/medil/ecc_algorithms.py
index 22af0c0..912dce0 100644
--- a/medil/ecc_algorithms.py
+++ b/medil/ecc_algorithms.py
@@ -247,7 +247,7 @@ def find_heuristic_1pc(graph):
     uncovered_edges = deque(
         {
             edge
-            for edge in np.argwhere(np.triu(graph, 1))
+            for edge in map(tuple, np.argwhere(np.triu(graph, 1)))
             if not np.logical_and(the_cover[:, edge[0]], the_cover[:, edge[1]]).any()
         }
     )
-- 
2.43.0


From 7848579a2c1408e0fe77dcd633a0173cce939ddf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:40 +0000
Subject: [PATCH 02/10] fix: write training.log inside the output directory

Without a trailing slash in `path`, the log went to a sibling file
("<path>training.log") while the other artifacts went into the directory.
---
 medil/models.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/medil/models.py b/medil/models.py
index 1fdb927..0876ef5 100644
--- a/medil/models.py
+++ b/medil/models.py
@@ -180,7 +180,7 @@ class NeuroCausalFactorAnalysis(MedilCausalModel):
 
     def log(self, entry: str) -> None:
         time_stamped_entry = f"{datetime.now().strftime('%Y-%m-%d %H:%M:%S')} {entry}"
-        with open(f"{self.path}training.log", "a") as log_file:
+        with open(os.path.join(self.path, "training.log"), "a") as log_file:
             log_file.write(time_stamped_entry + "\n")
         if self.verbose:
             print(time_stamped_entry)
-- 
2.43.0


From 129c2411872e0c18b97dcebb53a1d734e3d34c76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:40 +0000
Subject: [PATCH 03/10] fix: make NeuroCausalFactorAnalysis.fit reproducible
 from its seed

All of the training randomness (weight initialisation and latent noise)
comes from torch's generator, which was never seeded, so two fits with the
same seed and data gave different models.
---
 medil/models.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/medil/models.py b/medil/models.py
index 0876ef5..c57a10d 100644
--- a/medil/models.py
+++ b/medil/models.py
@@ -203,6 +203,7 @@ class NeuroCausalFactorAnalysis(MedilCausalModel):
         valid_loader = self._data_loader(valid_split)
 
         np.random.seed(self.seed)
+        torch.manual_seed(self.seed)
 
         model_recon, loss_recon, error_recon = self._train_vae(
             train_loader, valid_loader
-- 
2.43.0


From dcd94b6063bc686569c75e10762d12bde1b829ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:40 +0000
Subject: [PATCH 04/10] fix: train the VAE in training mode in every epoch

_valid_vae() switches the model to evaluation mode and nothing switched it
back, so all epochs but the first trained without latent noise.
---
 medil/models.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/medil/models.py b/medil/models.py
index c57a10d..f33f22d 100644
--- a/medil/models.py
+++ b/medil/models.py
@@ -274,11 +274,12 @@ class NeuroCausalFactorAnalysis(MedilCausalModel):
         self.log(f"Number of parameters: {num_params}")
 
         # training loop
-        model.train()
         train_elbo, train_error = [], []
         valid_elbo, valid_error = [], []
 
         for idx in range(self.hyperparams["num_epochs"]):
+            # validation switches to evaluation mode, so switch back each epoch
+            model.train()
             self.log(f"Training on epoch {idx}...")
             train_lb, train_er, nbatch = 0.0, 0.0, 0
 
-- 
2.43.0


From a28ea46751c936f2cea5daf3680fe1908d37c7e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:40 +0000
Subject: [PATCH 05/10] fix: use the given rng for all of sample.mcm

The random structure, and later samples from the returned model, were drawn
from process-wide default generators instead of the generator passed in, so
they depended on whatever else had run before.
---
 medil/sample.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/medil/sample.py b/medil/sample.py
index f3f41f3..6f75964 100644
--- a/medil/sample.py
+++ b/medil/sample.py
@@ -14,9 +14,9 @@ def mcm(
     **kwargs,
 ) -> GaussianMCM:
     if biadj.size == 0:
-        biadj = _biadj(**kwargs)
+        biadj = _biadj(rng=rng, **kwargs)
     if parameterization == "Gaussian":
-        mcm = GaussianMCM(biadj=biadj)
+        mcm = GaussianMCM(biadj=biadj, rng=rng)
         params = mcm.parameters
 
         num_edges = biadj.sum()
-- 
2.43.0


From 31bcf11feb5c41c3be7b5482a39a014737e5f7bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:40 +0000
Subject: [PATCH 06/10] fix: let DevMedil.sample find the fitted parameters

sample() (and scripts/developing.py) read W_hat_mle/D_hat_mle and
W_hat_lse/D_hat_lse, which no fit ever set, so sampling from a fitted model
always raised "must be fitted before sampling".
---
 medil/models.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/medil/models.py b/medil/models.py
index f33f22d..3f715aa 100644
--- a/medil/models.py
+++ b/medil/models.py
@@ -521,6 +521,7 @@ class DevMedil(MedilCausalModel):
         self.result = result
         self.W_hat = result.x[: num_latent * num_meas].reshape(num_latent, num_meas)
         self.D_hat = np.diag(result.x[num_latent * num_meas :])
+        self.W_hat_mle, self.D_hat_mle = self.W_hat, self.D_hat
         self.convergence_success_mle = result.success
         self.convergence_message_mle = result.message
 
@@ -575,6 +576,7 @@ class DevMedil(MedilCausalModel):
         self.result = result
         self.W_hat = result.x[: num_latent * num_meas].reshape(num_latent, num_meas)
         self.D_hat = np.diag(np.abs(result.x[num_latent * num_meas :]))
+        self.W_hat_lse, self.D_hat_lse = self.W_hat, self.D_hat
         self.convergence_success_lse = result.success
         self.convergence_message_lse = result.message
 
-- 
2.43.0


From 88d50a826fdb808a5af8561c62c22631c2e3e891 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:22 +0000
Subject: [PATCH 07/10] fix: import pandas for show_pairwise_plot

It used `pd` without importing it, so every call raised NameError. pandas is
already installed wherever seaborn, a dependency, is.
---
 medil/visualize.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/medil/visualize.py b/medil/visualize.py
index a59f5ce..da419b0 100644
--- a/medil/visualize.py
+++ b/medil/visualize.py
@@ -1,6 +1,7 @@
 """ Create and display various graphs, plots, and visualizations."""
 import numpy as np
 import matplotlib.pyplot as plt
+import pandas as pd
 import seaborn as sns
 import networkx as nx
 
-- 
2.43.0


From f48adf205b6fea2029aeaf57e978df13d59df5eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:30 +0000
Subject: [PATCH 08/10] fix: place weights on the edges of 0/1 integer
 structures

---
 medil/models.py | 7 ++++---
 medil/sample.py | 5 +++--
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/medil/models.py b/medil/models.py
index 3f715aa..437b365 100644
--- a/medil/models.py
+++ b/medil/models.py
@@ -84,7 +84,8 @@ class GaussianMCM(MedilCausalModel):
 
         cov = np.cov(self.dataset, rowvar=False)
 
-        num_weights = self.biadj.sum()
+        edges = self.biadj.astype(bool)
+        num_weights = edges.sum()
         num_err_vars = self.biadj.shape[1]
 
         def _objective(weights_and_err_vars):
@@ -92,7 +93,7 @@ class GaussianMCM(MedilCausalModel):
             err_vars = weights_and_err_vars[num_weights:]
 
             biadj_weights = np.zeros_like(self.biadj, float)
-            biadj_weights[self.biadj] = weights
+            biadj_weights[edges] = weights
 
             return (
                 (cov - biadj_weights.T @ biadj_weights - np.diagflat(err_vars)) ** 2
@@ -105,7 +106,7 @@ class GaussianMCM(MedilCausalModel):
         self.parameters.error_variances = result.x[num_weights:]
 
         self.parameters.biadj_weights = np.zeros_like(self.biadj, float)
-        self.parameters.biadj_weights[self.biadj] = result.x[:num_weights]
+        self.parameters.biadj_weights[edges] = result.x[:num_weights]
 
         return self
 
diff --git a/medil/sample.py b/medil/sample.py
index 6f75964..01c6c66 100644
--- a/medil/sample.py
+++ b/medil/sample.py
@@ -19,11 +19,12 @@ def mcm(
         mcm = GaussianMCM(biadj=biadj, rng=rng)
         params = mcm.parameters
 
-        num_edges = biadj.sum()
+        edges = biadj.astype(bool)
+        num_edges = edges.sum()
         weights = (rng.random(num_edges) * 1.5) + 0.5
         weights[rng.choice((True, False), num_edges)] *= -1
         params.biadj_weights = np.zeros_like(biadj, float)
-        params.biadj_weights[biadj] = weights
+        params.biadj_weights[edges] = weights
 
         num_meas = biadj.shape[1]
         params.error_means = rng.random(num_meas) * 2
-- 
2.43.0


From 37bed7ac229f7bddcedc91a12631648970a5e149 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:58 +0000
Subject: [PATCH 09/10] fix: find_clique_min_cover no longer returns the
 caller's own array for a graph without edges

---
 medil/ecc_algorithms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/medil/ecc_algorithms.py b/medil/ecc_algorithms.py
index 912dce0..e72c1c4 100644
--- a/medil/ecc_algorithms.py
+++ b/medil/ecc_algorithms.py
@@ -40,7 +40,7 @@ def find_clique_min_cover(graph, verbose=False):
         graph.make_aux()
     except ValueError:
         print("The input graph doesn't appear to have any edges!")
-        return graph.adj_matrix
+        return graph.adj_matrix.copy()
 
     num_cliques = 1
     the_cover = None
-- 
2.43.0


From 3e75b6d98b201784b05434545a32e2bc254532f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:06 +0000
Subject: [PATCH 10/10] fix: do not filter warnings each time Parameters("VAE")
 is made

warnings.catch_warnings is not thread-safe: models made by two threads at
the same time could leave all warnings of the process ignored, and hide a
warning of a fit running in another thread.
---
 medil/models.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/medil/models.py b/medil/models.py
index 437b365..e03c51a 100644
--- a/medil/models.py
+++ b/medil/models.py
@@ -1,5 +1,6 @@
 """MeDIL causal model base class and a preconfigured NCFA class."""
 
+from copy import deepcopy
 from datetime import datetime
 import os
 from pathlib import Path
@@ -45,6 +46,12 @@ class MedilCausalModel(object):
         raise NotImplementedError
 
 
+# Placeholder until a VAE is fitted. Made only once, because filtering the
+# warnings about its empty layers affects all threads of the process.
+with warnings.catch_warnings(action="ignore"):
+    _EMPTY_VAE = VariationalAutoencoder(0, 0, 0, 0)
+
+
 class Parameters(object):
     "Different parameterizations of MeDIL causal Models."
 
@@ -57,8 +64,7 @@ class Parameters(object):
             self.biadj_weights = np.array([])
         elif parameterization == "VAE":
             self.weights = np.array([])
-            with warnings.catch_warnings(action="ignore"):
-                self.vae = VariationalAutoencoder(0, 0, 0, 0)
+            self.vae = deepcopy(_EMPTY_VAE)
 
     def __str__(self) -> str:
         return "\n".join(
-- 
2.43.0

