From 919ce497aebff5e7d02f7a4e7aac2dceb6863217 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:07 +0000
Subject: [PATCH 1/4] fix: size the FFT for filters longer than the signals

---
 fast_bss_eval/numpy/metrics.py | 6 ++++--
 fast_bss_eval/torch/metrics.py | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/fast_bss_eval/numpy/metrics.py b/fast_bss_eval/numpy/metrics.py
index ac9dcd5..b58e455 100644
--- a/fast_bss_eval/numpy/metrics.py
+++ b/fast_bss_eval/numpy/metrics.py
@@ -113,7 +113,8 @@ def compute_stats(
     if length is None:
         length = x.shape[-1]
 
-    max_len = max(x.shape[-1], y.shape[-1])
+    # the FFT should also be long enough for all the lags up to length
+    max_len = max(x.shape[-1], y.shape[-1], length)
     n_fft = 2 ** math.ceil(math.log2(x.shape[-1] + max_len - 1))
 
     X = fft.rfft(x, n=n_fft, axis=-1)
@@ -163,7 +164,8 @@ def compute_stats_2(
     if length is None:
         length = x.shape[-1]
 
-    max_len = max(x.shape[-1], y.shape[-1])
+    # the FFT should also be long enough for all the lags up to length
+    max_len = max(x.shape[-1], y.shape[-1], length)
     n_fft = 2 ** math.ceil(math.log2(x.shape[-1] + max_len - 1))
 
     X = fft.rfft(x, n=n_fft, axis=-1)
diff --git a/fast_bss_eval/torch/metrics.py b/fast_bss_eval/torch/metrics.py
index 003e274..0266212 100644
--- a/fast_bss_eval/torch/metrics.py
+++ b/fast_bss_eval/torch/metrics.py
@@ -108,7 +108,8 @@ def compute_stats(
     if length is None:
         length = x.shape[-1]
 
-    max_len = max(x.shape[-1], y.shape[-1])
+    # the FFT should also be long enough for all the lags up to length
+    max_len = max(x.shape[-1], y.shape[-1], length)
     n_fft = 2 ** math.ceil(math.log2(x.shape[-1] + max_len - 1))
 
     X = rfft(x, n=n_fft, dim=-1)
@@ -159,7 +160,8 @@ def compute_stats_2(
     if length is None:
         length = x.shape[-1]
 
-    max_len = max(x.shape[-1], y.shape[-1])
+    # the FFT should also be long enough for all the lags up to length
+    max_len = max(x.shape[-1], y.shape[-1], length)
     n_fft = 2 ** math.ceil(math.log2(x.shape[-1] + max_len - 1))
 
     X = rfft(x, n=n_fft, dim=-1)
-- 
2.43.0


From a81888963e896fb2b31f1c427e6e84c048570407 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:07 +0000
Subject: [PATCH 2/4] fix: permutation when all the losses are infinite

---
 fast_bss_eval/numpy/helpers.py | 3 +++
 fast_bss_eval/torch/helpers.py | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/fast_bss_eval/numpy/helpers.py b/fast_bss_eval/numpy/helpers.py
index 0519398..fb91248 100644
--- a/fast_bss_eval/numpy/helpers.py
+++ b/fast_bss_eval/numpy/helpers.py
@@ -133,6 +133,9 @@ def _linear_sum_assignment_with_inf(
     if min_inf or max_inf:
         cost_matrix = cost_matrix.copy()
         values = cost_matrix[~np.isinf(cost_matrix)]
+        if values.size == 0:
+            # all the assignments are equivalent
+            values = np.zeros(1)
         m = values.min()
         M = values.max()
         n = min(cost_matrix.shape)
diff --git a/fast_bss_eval/torch/helpers.py b/fast_bss_eval/torch/helpers.py
index 6e32e05..b6ac30c 100644
--- a/fast_bss_eval/torch/helpers.py
+++ b/fast_bss_eval/torch/helpers.py
@@ -139,6 +139,9 @@ def _linear_sum_assignment_with_inf(
         if min_inf or max_inf:
             cost_matrix = cost_matrix.clone()
             values = cost_matrix[~torch.isinf(cost_matrix)]
+            if values.numel() == 0:
+                # all the assignments are equivalent
+                values = cost_matrix.new_zeros(1)
             m = values.min()
             M = values.max()
             n = min(cost_matrix.shape)
-- 
2.43.0


From 4c30a861e3176cd5a79254cf8d508e8782b06a4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:07 +0000
Subject: [PATCH 3/4] fix: keep the metrics within clamp_db when 1 - eps is
 rounded

---
 fast_bss_eval/numpy/helpers.py | 5 +++++
 fast_bss_eval/torch/helpers.py | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/fast_bss_eval/numpy/helpers.py b/fast_bss_eval/numpy/helpers.py
index fb91248..9ae2280 100644
--- a/fast_bss_eval/numpy/helpers.py
+++ b/fast_bss_eval/numpy/helpers.py
@@ -65,6 +65,11 @@ def _coherence_to_neg_sdr(
 
     ratio = (1 - coh) / coh
 
+    if clamp_db is not None:
+        # 1 - eps may not be exactly representable
+        max_ratio = 10.0 ** (clamp_db / 10.0)
+        ratio = clamp(ratio, min=1.0 / max_ratio, max=max_ratio)
+
     # apply the SDR mapping
     return 10.0 * np.log10(ratio)
 
diff --git a/fast_bss_eval/torch/helpers.py b/fast_bss_eval/torch/helpers.py
index b6ac30c..1c5b454 100644
--- a/fast_bss_eval/torch/helpers.py
+++ b/fast_bss_eval/torch/helpers.py
@@ -59,6 +59,11 @@ def _coherence_to_neg_sdr(
 
     ratio = (1 - coh) / coh
 
+    if clamp_db is not None:
+        # 1 - eps may not be exactly representable
+        max_ratio = 10.0 ** (clamp_db / 10.0)
+        ratio = torch.clamp(ratio, min=1.0 / max_ratio, max=max_ratio)
+
     # apply the SDR mapping
     return 10.0 * torch.log10(ratio)
 
-- 
2.43.0


From 63d38b0a6be1f717bdf3a82cc69c2bde3b288d00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:04 +0000
Subject: [PATCH 4/4] fix: SIR of estimates that contain nothing of the
 references

The SIR of a silent estimate was 0/0, so that bss_eval_sources failed with
'matrix contains invalid numeric entries' whenever it had to find the
permutation. There is no target in such an estimate: its SIR is -inf
(-clamp_db), like its SDR and SAR.
---
 fast_bss_eval/numpy/metrics.py | 3 ++-
 fast_bss_eval/torch/metrics.py | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/fast_bss_eval/numpy/metrics.py b/fast_bss_eval/numpy/metrics.py
index b58e455..81603a1 100644
--- a/fast_bss_eval/numpy/metrics.py
+++ b/fast_bss_eval/numpy/metrics.py
@@ -583,7 +583,8 @@ def _base_metrics_bss_eval(
     Helper function that converts the square cosine metrics to SDR/SIR/SAR
     """
 
-    coh_sir = coh_sdr / coh_sar
+    # an estimate without trace of the references has no target energy either
+    coh_sir = coh_sdr / np.where(coh_sar == 0, np.ones_like(coh_sar), coh_sar)
 
     neg_sdr = _coherence_to_neg_sdr(coh_sdr, clamp_db=clamp_db)
     neg_sir = _coherence_to_neg_sdr(coh_sir, clamp_db=clamp_db)
diff --git a/fast_bss_eval/torch/metrics.py b/fast_bss_eval/torch/metrics.py
index 0266212..b5ae206 100644
--- a/fast_bss_eval/torch/metrics.py
+++ b/fast_bss_eval/torch/metrics.py
@@ -580,7 +580,8 @@ def _base_metrics_bss_eval(
     Helper function that converts the square cosine metrics to SDR/SIR/SAR
     """
 
-    coh_sir = coh_sdr / coh_sar
+    # an estimate without trace of the references has no target energy either
+    coh_sir = coh_sdr / torch.where(coh_sar == 0, torch.ones_like(coh_sar), coh_sar)
 
     neg_sdr = _coherence_to_neg_sdr(coh_sdr, clamp_db=clamp_db)
     neg_sir = _coherence_to_neg_sdr(coh_sir, clamp_db=clamp_db)
-- 
2.43.0

