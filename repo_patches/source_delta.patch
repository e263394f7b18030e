From 5ae145eb596a36358eede587dabb20d92c7d7ecb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:16:32 +0000
Subject: [PATCH 01/32] fix: map an energy equal to min_e to the lowest energy
 group instead of raising

---
 ASAPy/XsecSampler.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ASAPy/XsecSampler.py b/ASAPy/XsecSampler.py
index 46d90d2..c99bff7 100644
--- a/ASAPy/XsecSampler.py
+++ b/ASAPy/XsecSampler.py
@@ -293,7 +293,8 @@ def map_groups_to_continuous(e_sigma, high_e_bins, multi_group_val, max_e=None,
     bins = np.searchsorted(sorted_e, e_sigma_ev)
 
     # map to actual group number
-    group_nums = 1 + num_groups - bins
+    # an energy exactly at min_e has bin 0 but belongs to the lowest energy group
+    group_nums = np.minimum(1 + num_groups - bins, num_groups)
     # for now replace the too low and too high bins with nearest good bin. Later they will be overwritten to user value
     # this makes it easier to index indo multi_group_val
     group_nums[bins_too_low] = num_groups
-- 
2.43.0


From 075bb705860aeaec8d9594f9571850d4e1296cf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:16:32 +0000
Subject: [PATCH 02/32] fix: do not sample variables with a zero correlation
 diagonal when nothing else is pinned

---
 ASAPy/CovManipulation.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ASAPy/CovManipulation.py b/ASAPy/CovManipulation.py
index 5c3a794..0bf9f9e 100644
--- a/ASAPy/CovManipulation.py
+++ b/ASAPy/CovManipulation.py
@@ -319,6 +319,8 @@ def sample_with_corr(mean_values, std_dev, desired_corr, num_samples, distro='no
         set_zero_corr_to_zero = np.diag(desired_corr) == 0
         if vars_to_not_sample_idx is not None:
             vars_to_not_sample_idx = [i + j for i, j in zip(vars_to_not_sample_idx, set_zero_corr_to_zero)]
+        else:
+            vars_to_not_sample_idx = set_zero_corr_to_zero
 
     # only sample from things that are deemed samplable
     if vars_to_not_sample_idx is not None:
-- 
2.43.0


From 50d4ddf6e8949f40cda424c4379c86c988a17fb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:16:32 +0000
Subject: [PATCH 03/32] fix: undo the GMW pivoting so correlations are imposed
 on the right variables

---
 ASAPy/CovManipulation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ASAPy/CovManipulation.py b/ASAPy/CovManipulation.py
index 0bf9f9e..d0de9c0 100644
--- a/ASAPy/CovManipulation.py
+++ b/ASAPy/CovManipulation.py
@@ -366,7 +366,7 @@ def sample_with_corr(mean_values, std_dev, desired_corr, num_samples, distro='no
         C = sp.linalg.cholesky(desired_corr)
     except np.linalg.LinAlgError:
         P, L, e = gmw_cholesky(desired_corr)
-        C = L.T
+        C = np.dot(P, L).T
 
     M = col_independent_matrix(num_samples, num_vars)
     D = (1. / num_samples) * np.dot(M.T, M)
@@ -375,7 +375,7 @@ def sample_with_corr(mean_values, std_dev, desired_corr, num_samples, distro='no
         E = sp.linalg.cholesky(D)
     except np.linalg.LinAlgError:
         P, L, e = gmw_cholesky(D)
-        E = L.T
+        E = np.dot(P, L).T
 
     N = np.dot(np.dot(M, np.linalg.inv(E)), C)
     R = rank(N)
-- 
2.43.0


From ce2a595c5f940eb563ec9ad77ca03001730bd182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:16:32 +0000
Subject: [PATCH 04/32] fix: look the requested temperature up in the
 temperatures of the ACE file

---
 ASAPy/AceIO.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ASAPy/AceIO.py b/ASAPy/AceIO.py
index 28a971a..456573d 100644
--- a/ASAPy/AceIO.py
+++ b/ASAPy/AceIO.py
@@ -38,7 +38,7 @@ class AceEditor:
                 # try to see if the user left off "K"
                 temperature += 'K'
 
-            if temperature not in list(temperature):
+            if temperature not in list(temperatures):
                 raise Exception("Could not find temperature {0} in ace file".format(temperature))
 
         self.temperature = temperature
-- 
2.43.0


From 36a5ddba9e52dc834dc7b909c1c162f7e34e261f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:16:32 +0000
Subject: [PATCH 05/32] fix: iterate sample columns with items(), iteritems()
 is gone from pandas

---
 ASAPy/XsecSampler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ASAPy/XsecSampler.py b/ASAPy/XsecSampler.py
index c99bff7..9278724 100644
--- a/ASAPy/XsecSampler.py
+++ b/ASAPy/XsecSampler.py
@@ -733,7 +733,7 @@ def write_sampled_data(h, ace_file, zaid, mts, sample_dfs_rel, output_formatter=
     # sample_df contains relative values (sampled / mean) which are then multiplied by the actual continuous xsec and written to an ace file
 
     # iter over # of samples, each processor does 1 whole ace file no matter how many mts were sampled
-    for sample_number, _ in sample_dfs_rel[0].iteritems():
+    for sample_number, _ in sample_dfs_rel[0].items():
         if sample_number % size != rank: continue
 
         # load the base ace file to get a fresh copy
-- 
2.43.0


From 2229cc672a11f46b3d2bc6f5cc87dd021bb54fd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:16:32 +0000
Subject: [PATCH 06/32] fix: import os and argparse at module level, they are
 used by importable functions

---
 ASAPy/XsecSampler.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ASAPy/XsecSampler.py b/ASAPy/XsecSampler.py
index 9278724..3adfb22 100644
--- a/ASAPy/XsecSampler.py
+++ b/ASAPy/XsecSampler.py
@@ -1,3 +1,6 @@
+import argparse
+import os
+
 import matplotlib.pyplot as plt
 import numpy as np
 import pandas as pd
@@ -828,9 +831,6 @@ def create_argparser():
     return parser
 
 if __name__ == "__main__":
-    import os
-    import argparse
-
     parser = create_argparser()
     args = parser.parse_args()
 
-- 
2.43.0


From f829efcc967d8ea6055cff15edf6e7e1b7c55f6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:16:32 +0000
Subject: [PATCH 07/32] fix: do not write a blank line when the last ACE data
 line is full

---
 ASAPy/AceIO.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ASAPy/AceIO.py b/ASAPy/AceIO.py
index 456573d..ec1d57e 100644
--- a/ASAPy/AceIO.py
+++ b/ASAPy/AceIO.py
@@ -506,7 +506,7 @@ class WriteAce:
                     values_printed_coutner = 0
 
             # ensure a new line at EOF
-            if values_printed_coutner < 4:
+            if values_printed_coutner > 0:
                 f.write('\n')
 
 if __name__ == "__main__":
-- 
2.43.0


From 6011f9f88fb52e2b59d6289c77f41c14aaf5ed64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:16:32 +0000
Subject: [PATCH 08/32] fix: replace whole numbers only when rewriting ACE data

---
 ASAPy/AceIO.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/ASAPy/AceIO.py b/ASAPy/AceIO.py
index ec1d57e..d520bfd 100644
--- a/ASAPy/AceIO.py
+++ b/ASAPy/AceIO.py
@@ -477,16 +477,13 @@ class WriteAce:
 
         original_str_line = self.format_mcnp(array)
 
-        try:
-            first_idx_of_data = self.single_line.index(original_str_line)
-        except ValueError:
+        # only match whole numbers, never the tail or head of a longer one
+        pattern = r'(?<!\S)' + re.escape(original_str_line) + r'(?!\S)'
+        if re.search(pattern, self.single_line) is None:
             raise ValueError("Inputted string not found in the ace file.")
 
-        last_idx_of_data = first_idx_of_data + len(original_str_line)
-
         replace_with_line = self.format_mcnp(replace_with)
-        self.single_line = self.single_line.replace(self.single_line[first_idx_of_data: last_idx_of_data],
-                                                    replace_with_line, max_replaces)
+        self.single_line = re.sub(pattern, lambda match: replace_with_line, self.single_line, count=max_replaces)
 
     def write_ace(self, ace_path_to_write):
 
-- 
2.43.0


From 30342c959b72baede2a34695112d3feee11b09e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:16:32 +0000
Subject: [PATCH 09/32] fix: keep zero cross sections zero when their group
 mean is not zero

---
 ASAPy/XsecSampler.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ASAPy/XsecSampler.py b/ASAPy/XsecSampler.py
index 3adfb22..f2980ec 100644
--- a/ASAPy/XsecSampler.py
+++ b/ASAPy/XsecSampler.py
@@ -758,8 +758,10 @@ def write_sampled_data(h, ace_file, zaid, mts, sample_dfs_rel, output_formatter=
                     sampled_xsec.append(map_groups_to_continuous(e_to_map_on, xsec['e high'], col,
                                                                  min_e=xsec['e low'].min()) * pdf_for_e_out)
             else:
-                # in case we get a 0 mean set it to 1.0. The sample_df sets rel_dev
-                original_sigma[original_sigma == 0] = 1
+                # in case we get a 0 mean set it to 1.0. The sample_df sets rel_dev. Zeros in groups with a non-zero
+                # mean (below a threshold for example) are multiplied like any other value
+                group_mean = map_groups_to_continuous(e, xsec['e high'], xsec['x-sec(1)'], min_e=xsec['e low'].min())
+                original_sigma[(original_sigma == 0) & (group_mean == 0)] = 1
 
                 sampled_xsec = map_groups_to_continuous(e, xsec['e high'], col,min_e=xsec['e low'].min()) * original_sigma
 
-- 
2.43.0


From d69793a425bf8692d1d1ed66cd760ca8cb72a4f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:16:32 +0000
Subject: [PATCH 10/32] fix: use the absolute sample for groups with zero mean
 also when the relative one is infinite

---
 ASAPy/XsecSampler.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ASAPy/XsecSampler.py b/ASAPy/XsecSampler.py
index f2980ec..a702703 100644
--- a/ASAPy/XsecSampler.py
+++ b/ASAPy/XsecSampler.py
@@ -384,9 +384,10 @@ def sample_xsec(cov_hdf_store, mt, zaid, num_samples, sample_type='lognormal', r
 
     sample_df = xsec._sample_check(sample_df_full_vals.T, mean, remove_neg=False)
 
-    # if a NaN is found at this point, it's because the sample_df (rel) calc divided by 0 mean,
+    # if a NaN or inf is found at this point, it's because the sample_df (rel) calc divided by 0 mean,
     # set the rel dev to the value sampled + 1.0. Later we can check if mean = 0 and if it is just use rel dev
-    sample_df[sample_df.isna()] = sample_df_full_vals[sample_df.isna()]
+    zero_mean = ~np.isfinite(sample_df)
+    sample_df[zero_mean] = sample_df_full_vals[zero_mean]
 
     return sample_df, sample_df_full_vals
 
-- 
2.43.0


From 844acd63cb532355b3545c3a6cee4746e497fbf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:16:32 +0000
Subject: [PATCH 11/32] fix: integrate the constant term of linear-log
 intervals over the interval

---
 ASAPy/data/function.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ASAPy/data/function.py b/ASAPy/data/function.py
index 907c283..230fcb3 100644
--- a/ASAPy/data/function.py
+++ b/ASAPy/data/function.py
@@ -295,7 +295,8 @@ class Tabulated1D(Function1D):
                 # Linear-log
                 logx = np.log(x1/x0)
                 m = (y1 - y0)/logx
-                partial_sum[i_low:i_high] = y0 + m*(x1*(logx - 1) + x0)
+                partial_sum[i_low:i_high] = y0*(x1 - x0) + \
+                                            m*(x1*(logx - 1) + x0)
 
             elif self.interpolation[k] == 4:
                 # Log-linear
-- 
2.43.0


From 379d70bffe1caa20899744e16aedfabedd7e2006 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:16:32 +0000
Subject: [PATCH 12/32] fix: integrate log-linear and log-log intervals with
 constant y or slope -1

---
 ASAPy/data/function.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/ASAPy/data/function.py b/ASAPy/data/function.py
index 230fcb3..d07cbd8 100644
--- a/ASAPy/data/function.py
+++ b/ASAPy/data/function.py
@@ -5,6 +5,7 @@ from itertools import zip_longest
 from numbers import Real, Integral
 
 import numpy as np
+from scipy.special import exprel
 
 from . import checkvalue as cv
 from .mixin import EqualityMixin
@@ -300,14 +301,13 @@ class Tabulated1D(Function1D):
 
             elif self.interpolation[k] == 4:
                 # Log-linear
-                m = np.log(y1/y0)/(x1 - x0)
-                partial_sum[i_low:i_high] = y0/m*(np.exp(m*(x1 - x0)) - 1)
+                partial_sum[i_low:i_high] = y0*(x1 - x0)*exprel(np.log(y1/y0))
 
             elif self.interpolation[k] == 5:
                 # Log-log
-                m = np.log(y1/y0)/np.log(x1/x0)
-                partial_sum[i_low:i_high] = y0/((m + 1)*x0**m)*(
-                    x1**(m + 1) - x0**(m + 1))
+                logx = np.log(x1/x0)
+                partial_sum[i_low:i_high] = y0*x0*logx*exprel(
+                    np.log(y1/y0) + logx)
 
             i_low = i_high
 
-- 
2.43.0


From cc2fc59b3192b3678c6facf62179257ca69a70f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:16:32 +0000
Subject: [PATCH 13/32] fix: evaluate tabulated functions at integer points
 without truncating the result

---
 ASAPy/data/function.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ASAPy/data/function.py b/ASAPy/data/function.py
index d07cbd8..b9c0845 100644
--- a/ASAPy/data/function.py
+++ b/ASAPy/data/function.py
@@ -156,7 +156,7 @@ class Tabulated1D(Function1D):
         # Check if input is array or scalar
         if isinstance(x, Iterable):
             iterable = True
-            x = np.array(x)
+            x = np.array(x, dtype=float)
         else:
             iterable = False
             x = np.array([x], dtype=float)
-- 
2.43.0


From 5ad6a3f7cd7293c6201e29c85bd682658a1bc615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:16:32 +0000
Subject: [PATCH 14/32] fix: interpolate points that are inside the table but
 close to its ends

---
 ASAPy/data/function.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ASAPy/data/function.py b/ASAPy/data/function.py
index b9c0845..680c7aa 100644
--- a/ASAPy/data/function.py
+++ b/ASAPy/data/function.py
@@ -205,8 +205,8 @@ class Tabulated1D(Function1D):
 
         # In some cases, x values might be outside the tabulated region due only
         # to precision, so we check if they're close and set them equal if so.
-        y[np.isclose(x, self.x[0], atol=1e-14)] = self.y[0]
-        y[np.isclose(x, self.x[-1], atol=1e-14)] = self.y[-1]
+        y[(x <= self.x[0]) & np.isclose(x, self.x[0], atol=1e-14)] = self.y[0]
+        y[(x >= self.x[-1]) & np.isclose(x, self.x[-1], atol=1e-14)] = self.y[-1]
 
         return y if iterable else y[0]
 
-- 
2.43.0


From 4f6a2ada8c1f2c44f76dba742634f9f627ecd974 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:16:32 +0000
Subject: [PATCH 15/32] fix: leave an all zero correlation untouched instead of
 turning it into NaN and failing

---
 ASAPy/XsecSampler.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/ASAPy/XsecSampler.py b/ASAPy/XsecSampler.py
index a702703..1ea9b3c 100644
--- a/ASAPy/XsecSampler.py
+++ b/ASAPy/XsecSampler.py
@@ -84,7 +84,10 @@ class XsecSampler:
         # ensure diagonals and matrix normalized to 1.0 + have 1.0 on the diag
         if fill_corr_diag:
             np.fill_diagonal(corr_df.values, max(np.diag(corr_df.values)))  # boxer format used 1000 as 1.0 for correlations
-        corr_df = corr_df / max(np.diag(corr_df.values))
+        max_diag = max(np.diag(corr_df.values))
+        # all zeros means there is no data, leave that untouched
+        if max_diag != 0:
+            corr_df = corr_df / max_diag
 
 
         # make sure e low and e high are in the correct order
@@ -224,6 +227,9 @@ class XsecSampler:
         diag_non_zero = np.diag(corr_matrix) > 0
         corr_matrix_copy = corr_matrix[diag_non_zero, :][:, diag_non_zero]
 
+        if not diag_non_zero.any():
+            return corr_matrix_copy, diag_non_zero
+
         eigs, P = LA.eigh(corr_matrix_copy)
         if min(eigs) <= 1e-8:
             # replace all negative and zero eigs with a small eps
-- 
2.43.0


From ba12036d89efc33f44b5f741b23674646c0b24e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:17:49 +0000
Subject: [PATCH 16/32] fix: propagate adjusted reactions through absent
 redundant reactions in the sum rules

---
 ASAPy/AceIO.py | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/ASAPy/AceIO.py b/ASAPy/AceIO.py
index d520bfd..f97956a 100644
--- a/ASAPy/AceIO.py
+++ b/ASAPy/AceIO.py
@@ -336,27 +336,33 @@ class AceEditor:
         mt_105 = list(range(700, 750))
         mt_106 = list(range(750, 800))
         mt_107 = list(range(800, 850))
-        mt_101 = [102, *mt_103, *mt_104, *mt_105, *mt_106, *mt_107, 108, 109, 111, 112, 113, 114, 115, 116, 117, 155,
-                  182, 191, 192, 193, 197]
+        mt_101 = [*list(range(102, 110)), *list(range(111, 118)), 155, 182, 191, 192, 193, 197]
         mt_18 = [19, 20, 21, 38]
-        mt_27 = [*mt_18, *mt_101]  # has 18 and 101 which are sums themselves
+        mt_27 = [18, 101]  # has 18 and 101 which are sums themselves
 
         mt_16 = list(range(875, 892))
         mt_4 = list(range(50, 92))
-        # mt_3 = [*mt_4, 5, 11, *mt_16, 17, *list(range(22, 26)), *mt_27, 28, 29, 30, 32, 33, 34, 35, 36, 37, 41, 42, 44,
-        #         45, 152, 153, 154, *list(range(156, 182)), *list(range(183, 191)), 194, 195, 196, 198, 199, 200]
+        mt_3 = [4, 5, 11, 16, 17, *list(range(22, 38)), 41, 42, 44, 45, 152, 153, 154, *list(range(156, 182)),
+                *list(range(183, 191)), 194, 195, 196, 198, 199, 200]  # contains 4, 16 and 27 which are sums
 
-        # according to https://t2.lanl.gov/nis/endf/mts.html
-        mt_3 = [4, 5, 11, 16, 17, 18, *list(range(22, 27)), *list(range(28, 38)), 41, 42, *list(range(44, 46)),
-                *list(range(102, 118))]
-
-        mt_1 = [2, *mt_3]  # contains 3 which is a sum
+        mt_1 = [2, 3]  # contains 3 which is a sum
 
         # go from highest to lowest since lower ENDF #'s are not in higher #'s, except 18 which is in 27 so do 18 first
         sum_mts_list = [mt_107, mt_106, mt_105, mt_104, mt_103, mt_101, mt_18, mt_27, mt_16, mt_4, mt_3, mt_1]
         sum_mts = [107, 106, 105, 104, 103, 101, 18, 27, 16, 4, 3, 1]
 
+        sum_rules = dict(zip(sum_mts, sum_mts_list))
+
+        def replace_absent_sums(mts):
+            # a sum that is not present is replaced by its constituents so that those are not lost
+            for mt in mts:
+                if mt in sum_rules and mt not in self.all_mts:
+                    yield from replace_absent_sums(sum_rules[mt])
+                else:
+                    yield mt
+
         for sum_mt, mts_in_sum in zip(sum_mts, sum_mts_list):
+            mts_in_sum = list(replace_absent_sums(mts_in_sum))
             # ensure the sum'd mt is present before trying to set it
             if sum_mt in self.all_mts:
                 # find out which MTs within the sum MTs are present
-- 
2.43.0


From 978fb98e6200756d0e7aee753da808330459426c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:33:47 +0000
Subject: [PATCH 17/32] fix: do not truncate the covariance when the standard
 deviations are integers

---
 ASAPy/CovManipulation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ASAPy/CovManipulation.py b/ASAPy/CovManipulation.py
index d0de9c0..c2b0a97 100644
--- a/ASAPy/CovManipulation.py
+++ b/ASAPy/CovManipulation.py
@@ -70,7 +70,7 @@ def correlation_to_cov(std, corr):
     # given R_{ij} = \frac{C_{ij}}{\sqrt{C_{ii} C_{jj}}} and
     # knowing C_ii = (std_dev of variable i)**2 and C_jj = (std_dev of variable j)**2
 
-    cov = np.diag(std**2)
+    cov = np.diag(1.0 * std**2)
 
     shape = len(std)
     for i in range(shape):
-- 
2.43.0


From 0ac36c80090ecc2491a3cf236c1591482729c73a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:33:47 +0000
Subject: [PATCH 18/32] fix: draw a single correlated sample instead of failing
 on NaN scores

---
 ASAPy/CovManipulation.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ASAPy/CovManipulation.py b/ASAPy/CovManipulation.py
index c2b0a97..b1b13f0 100644
--- a/ASAPy/CovManipulation.py
+++ b/ASAPy/CovManipulation.py
@@ -23,7 +23,10 @@ def col_independent_matrix(n, d):
     """
     x = np.arange(1, (n+1))
     p = sp.stats.norm.ppf(x/(n+1))
-    p = (p - p.mean()) / p.std()
+    p = p - p.mean()
+    if n > 1:
+        # a single score has no spread to normalize
+        p = p / p.std()
     score = np.zeros((n, d))
     for j in range(0, score.shape[1]):
         score[:, j] = np.random.permutation(p)
-- 
2.43.0


From 737dfb1c93f14500a6029486e21e4c5aabcaaaaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:33:47 +0000
Subject: [PATCH 19/32] fix: keep groups with zero mean in relative samples
 instead of dropping them

---
 ASAPy/XsecSampler.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ASAPy/XsecSampler.py b/ASAPy/XsecSampler.py
index 1ea9b3c..41187f0 100644
--- a/ASAPy/XsecSampler.py
+++ b/ASAPy/XsecSampler.py
@@ -197,7 +197,8 @@ class XsecSampler:
         """
         Creates relative sample df keeping the group structure, removing negative samples (if desired)
         """
-        sample_df = samples / mean
+        # groups with zero mean cannot be relative to it, keep the values sampled for them
+        sample_df = samples / np.where(mean == 0, 1, mean)
         sample_df = pd.DataFrame(sample_df.T, index=range(1, len(mean) + 1))
 
         if remove_neg:
-- 
2.43.0


From 51b2c7bd75cce8009f5e4a16c67c0d58041b6a4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:42:19 +0000
Subject: [PATCH 20/32] fix: reject a fission spectrum of wrong size at any
 incident energy before changing it

---
 ASAPy/AceIO.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/ASAPy/AceIO.py b/ASAPy/AceIO.py
index f97956a..ccf7867 100644
--- a/ASAPy/AceIO.py
+++ b/ASAPy/AceIO.py
@@ -164,9 +164,11 @@ class AceEditor:
                 raise Exception("Number of out energies in pdf {0} not the same as ace {1}".format(
                     len(pdf), len(fission_chi_prompt.energy_out)))
 
-            if len(fission_chi_prompt.energy_out[0]) != len(pdf[0]):
-                raise Exception("Number of bins in out energy in pdf {0} not the same as ace {1}".format(
-                    len(pdf[0]), len(fission_chi_prompt.energy_out[0])))
+            # check all of them before changing any
+            for distro, pdf_to_set in zip(fission_chi_prompt.energy_out, pdf):
+                if len(distro) != len(pdf_to_set):
+                    raise Exception("Number of bins in out energy in pdf {0} not the same as ace {1}".format(
+                        len(pdf_to_set), len(distro)))
 
             for idx, distro in enumerate(fission_chi_prompt.energy_out):
                 delta_pdf = pdf[idx] - distro.p
-- 
2.43.0


From 0eb0acd6459649f598633fbeb0202e9202abc832 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:42:19 +0000
Subject: [PATCH 21/32] fix: read a tabulated fission yield that is constant in
 energy

---
 ASAPy/AceIO.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ASAPy/AceIO.py b/ASAPy/AceIO.py
index ccf7867..338e2b9 100644
--- a/ASAPy/AceIO.py
+++ b/ASAPy/AceIO.py
@@ -1,5 +1,6 @@
 import re
 from .data import neutron
+from .data.function import Tabulated1D
 import numpy as np
 import os
 import copy
@@ -221,8 +222,7 @@ class AceEditor:
 
         prod = fiss.derived_products[0]
 
-        label = prod.__repr__()
-        if 'tabulated' not in label:
+        if not isinstance(prod.yield_, Tabulated1D):
             raise TypeError(
                 "Fission nu distribition is not stored in the tabular format (ASAPy does not support poly) " + self.ace_path)
 
-- 
2.43.0


From 013f3cc739b3a8e5324240503d1746ad00f1a9c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:43:40 +0000
Subject: [PATCH 22/32] fix: replace nothing when no replacement is allowed

---
 ASAPy/AceIO.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ASAPy/AceIO.py b/ASAPy/AceIO.py
index 338e2b9..a8a331e 100644
--- a/ASAPy/AceIO.py
+++ b/ASAPy/AceIO.py
@@ -491,7 +491,10 @@ class WriteAce:
             raise ValueError("Inputted string not found in the ace file.")
 
         replace_with_line = self.format_mcnp(replace_with)
-        self.single_line = re.sub(pattern, lambda match: replace_with_line, self.single_line, count=max_replaces)
+        if max_replaces != 0:
+            # a negative number replaces all of them, which is a count of 0 for re.sub
+            self.single_line = re.sub(pattern, lambda match: replace_with_line, self.single_line,
+                                      count=max(max_replaces, 0))
 
     def write_ace(self, ace_path_to_write):
 
-- 
2.43.0


From 7c052240156bf560479c121345cbb29ef9128f31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:51:27 +0000
Subject: [PATCH 23/32] fix: read the last PENDF tape, not a covariance or plot
 tape, in heatr, purr and acer

---
 ASAPy/njoy.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/ASAPy/njoy.py b/ASAPy/njoy.py
index 2ad08be..f42d3ca 100644
--- a/ASAPy/njoy.py
+++ b/ASAPy/njoy.py
@@ -504,6 +504,7 @@ def make_njoy_run(filename, temperatures=None, ace='ace', xsdir='xsdir', pendf=N
     nlast = npendf
 
     # broadr
+    nbroadr = npendf  # without broadening the later modules use the tape from reconr
     if broadr:
         nbroadr = nlast + 1
         commands += _TEMPLATE_BROADR
@@ -627,29 +628,34 @@ def make_njoy_run(filename, temperatures=None, ace='ace', xsdir='xsdir', pendf=N
 
 
 
+    # nlast may now be a covariance or plot tape, the modules below need the last PENDF tape
+    nlast_pendf = nbroadr
+
     # heatr
     if heatr:
-        nheatr_in = nbroadr
+        nheatr_in = nlast_pendf
         nheatr = nlast + 1
         commands += _TEMPLATE_HEATR
         nlast = nheatr
+        nlast_pendf = nheatr
 
     # purr
     if purr:
-        npurr_in = nlast
-        npurr = npurr_in + 1
+        npurr_in = nlast_pendf
+        npurr = nlast + 1
         commands += _TEMPLATE_PURR
         nlast = npurr
+        nlast_pendf = npurr
 
     commands = commands.format(**locals())
 
     # acer
     if acer:
-        nacer_in = nlast
+        nacer_in = nlast_pendf
         fname = '{}_{:.1f}'
         for i, temperature in enumerate(temperatures):
             # Extend input with an ACER run for each temperature
-            nace = nacer_in + 1 + 2*i
+            nace = nlast + 1 + 2*i
             ndir = nace + 1
             ext = '{:02}'.format(i + 1)
             commands += _TEMPLATE_ACER.format(**locals())
-- 
2.43.0


From 4fc5622bbccb04e33edd2f88d359032c8e2e2b97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:51:27 +0000
Subject: [PATCH 24/32] fix: pass the user flux weight to the nu and chi groupr
 run

---
 ASAPy/njoy.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ASAPy/njoy.py b/ASAPy/njoy.py
index f42d3ca..cb90893 100644
--- a/ASAPy/njoy.py
+++ b/ASAPy/njoy.py
@@ -164,8 +164,8 @@ nu and chi /
 {cov_group_bounds}/"""
 
     if user_flux_weight:
-        # no newline needed since the next part has a new line to start with
-        s += user_flux_weight + "/"
+        # no newline needed at the end since the next part has a new line to start with
+        s += "\n" + user_flux_weight + "/"
 
     for i in range(num_temp):
         s += """
@@ -573,7 +573,7 @@ def make_njoy_run(filename, temperatures=None, ace='ace', xsdir='xsdir', pendf=N
             commands += "\n-- Nu-bar / Chi groupr\n"
             ngroupr_in = nbroadr  # PENDF tape
             ngroupr_out = nlast + 1
-            s = _TEMPLATE_GROUPR_FOR_PLOT(num_temp)
+            s = _TEMPLATE_GROUPR_FOR_PLOT(num_temp, user_flux_weight if iwt_fluxweight == 1 else None)
             commands += s.format(**locals())
 
             nlast += 1
-- 
2.43.0


From 71e0d0e1d01a4158d99a56124adbe844e073af88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:51:27 +0000
Subject: [PATCH 25/32] fix: do not ask for covariances when only a PENDF is
 made

---
 ASAPy/njoy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ASAPy/njoy.py b/ASAPy/njoy.py
index cb90893..27fe3cd 100644
--- a/ASAPy/njoy.py
+++ b/ASAPy/njoy.py
@@ -415,7 +415,7 @@ def make_pendf(filename, pendf='pendf', error=0.001, stdout=False):
     """
 
     make_njoy_run(filename, pendf=pendf, error=error, broadr=False,
-                  heatr=False, purr=False, acer=False, stdout=stdout)
+                  heatr=False, purr=False, acer=False, errorr=False, stdout=stdout)
 
 
 def make_njoy_run(filename, temperatures=None, ace='ace', xsdir='xsdir', pendf=None,
-- 
2.43.0


From 79d074ce2e29ee4c6ae04fbdd9807a56424f0522 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:51:48 +0000
Subject: [PATCH 26/32] fix: read ASCII ACE libraries with several tables, text
 files cannot seek relatively

---
 ASAPy/data/ace.py | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/ASAPy/data/ace.py b/ASAPy/data/ace.py
index b1f2b09..1866237 100644
--- a/ASAPy/data/ace.py
+++ b/ASAPy/data/ace.py
@@ -15,7 +15,6 @@ generates ACE-format cross sections.
 
 """
 
-from os import SEEK_CUR
 from pathlib import PurePath
 import struct
 import sys
@@ -378,7 +377,6 @@ class Library(EqualityMixin):
             nxs = np.fromstring(datastr, sep=' ', dtype=int)
 
             n_lines = (nxs[1] + 3)//4
-            n_bytes = len(lines[-1]) * (n_lines - 2) + 1
 
             # Ensure that we have more tables to read in
             if (table_names is not None) and (table_names < tables_seen):
@@ -387,17 +385,13 @@ class Library(EqualityMixin):
 
             # verify that we are suppossed to read this table in
             if (table_names is not None) and (name not in table_names):
-                ace_file.seek(n_bytes, SEEK_CUR)
-                ace_file.readline()
+                for i in range(n_lines - 1):
+                    ace_file.readline()
                 lines = [ace_file.readline() for i in range(13)]
                 continue
 
-            # read and fix over-shoot
-            lines += ace_file.readlines(n_bytes)
-            if 12 + n_lines < len(lines):
-                goback = sum([len(line) for line in lines[12+n_lines:]])
-                lines = lines[:12+n_lines]
-                ace_file.seek(-goback, SEEK_CUR)
+            # read the lines of this table only
+            lines += [ace_file.readline() for i in range(n_lines - 1)]
 
             if verbose:
                 kelvin = round(temperature * 1e6 / 8.617342e-5)
-- 
2.43.0


From 25d29b0d0dc9158c844459707a9c2ca3287d4dd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:51:48 +0000
Subject: [PATCH 27/32] fix: convert ACE data written without an exponent
 letter to binary

---
 ASAPy/data/ace.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ASAPy/data/ace.py b/ASAPy/data/ace.py
index 1866237..bd844bb 100644
--- a/ASAPy/data/ace.py
+++ b/ASAPy/data/ace.py
@@ -153,8 +153,8 @@ def ascii_to_binary(ascii_file, binary_file):
         # Read/write XSS array. Null bytes are added to form a complete record
         # at the end of the file
         n_lines = (nxs[0] + 3)//4
-        xss = list(map(float, ' '.join(lines[
-            idx + 12:idx + 12 + n_lines]).split()))
+        datastr = ' '.join(lines[idx + 12:idx + 12 + n_lines])
+        xss = list(map(float, ENDF_FLOAT_RE.sub(r'\1e\2', datastr).split()))
         extra_bytes = record_length - ((len(xss)*8 - 1) % record_length + 1)
         binary.write(struct.pack(str('={0}d{1}x'.format(nxs[0], extra_bytes)),
                                  *xss))
-- 
2.43.0


From 5b15358a364335471a092fd3918142d561c928af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:54:16 +0000
Subject: [PATCH 28/32] fix: store every element of an INTG line at its own
 column

---
 ASAPy/data/endf.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ASAPy/data/endf.py b/ASAPy/data/endf.py
index 0e56c1a..752f39d 100644
--- a/ASAPy/data/endf.py
+++ b/ASAPy/data/endf.py
@@ -324,9 +324,9 @@ def get_intg_record(file_obj):
                 break
             element = _int_endf(line[11+(ndigit+1)*j:11+(ndigit+1)*(j+1)])
             if element > 0:
-                corr[ii, jj] = (element+0.5)/factor
+                corr[ii, jj+j] = (element+0.5)/factor
             elif element < 0:
-                corr[ii, jj] = (element-0.5)/factor
+                corr[ii, jj+j] = (element-0.5)/factor
 
     # Symmetrize the correlation matrix
     corr = corr + corr.T - np.diag(corr.diagonal())
-- 
2.43.0


From 8f8d5dcf370085dc69d85f59a9874f4e1b14e9c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:54:16 +0000
Subject: [PATCH 29/32] fix: integrate tables with repeated x values instead of
 returning NaN

---
 ASAPy/data/function.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/ASAPy/data/function.py b/ASAPy/data/function.py
index 680c7aa..81a7a61 100644
--- a/ASAPy/data/function.py
+++ b/ASAPy/data/function.py
@@ -288,16 +288,12 @@ class Tabulated1D(Function1D):
 
             elif self.interpolation[k] == 2:
                 # Linear-linear
-                m = (y1 - y0)/(x1 - x0)
-                partial_sum[i_low:i_high] = (y0 - m*x0)*(x1 - x0) + \
-                                            m*(x1**2 - x0**2)/2
+                partial_sum[i_low:i_high] = (y0 + y1)*(x1 - x0)/2
 
             elif self.interpolation[k] == 3:
                 # Linear-log
-                logx = np.log(x1/x0)
-                m = (y1 - y0)/logx
                 partial_sum[i_low:i_high] = y0*(x1 - x0) + \
-                                            m*(x1*(logx - 1) + x0)
+                    (y1 - y0)*(x1 - x0*exprel(np.log(x1/x0)))
 
             elif self.interpolation[k] == 4:
                 # Log-linear
-- 
2.43.0


From 67f8b6f94f3d6b7338d6a08a081bec3f9db983f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:01:28 +0000
Subject: [PATCH 30/32] fix: read a last ACE data number written without an
 exponent letter

---
 ASAPy/data/ace.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ASAPy/data/ace.py b/ASAPy/data/ace.py
index bd844bb..deeaeb6 100644
--- a/ASAPy/data/ace.py
+++ b/ASAPy/data/ace.py
@@ -412,7 +412,8 @@ class Library(EqualityMixin):
             # 1.0-120 is encountered, np.fromstring won't capture any numbers
             # after it). If it's too short, then we apply the ENDF float regular
             # expression. We don't do this by default because it's expensive!
-            if xss.size != nxs[1] + 1:
+            # If only the very last number is like that the size is right.
+            if xss.size != nxs[1] + 1 or ENDF_FLOAT_RE.search(lines[11 + n_lines]):
                 datastr = ENDF_FLOAT_RE.sub(r'\1e\2', datastr)
                 xss = np.fromstring(datastr, sep=' ')
                 assert xss.size == nxs[1] + 1
-- 
2.43.0


From 77161118c4a55cd32c7213550c3552ca3fb26973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:35:30 +0000
Subject: [PATCH 31/32] fix: an energy up to 1e-5 (relative) outside a
 tabulated function was taken as its end point

---
 ASAPy/data/function.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ASAPy/data/function.py b/ASAPy/data/function.py
index 81a7a61..0c7af99 100644
--- a/ASAPy/data/function.py
+++ b/ASAPy/data/function.py
@@ -205,8 +205,8 @@ class Tabulated1D(Function1D):
 
         # In some cases, x values might be outside the tabulated region due only
         # to precision, so we check if they're close and set them equal if so.
-        y[(x <= self.x[0]) & np.isclose(x, self.x[0], atol=1e-14)] = self.y[0]
-        y[(x >= self.x[-1]) & np.isclose(x, self.x[-1], atol=1e-14)] = self.y[-1]
+        y[(x <= self.x[0]) & np.isclose(x, self.x[0], rtol=1e-12, atol=1e-14)] = self.y[0]
+        y[(x >= self.x[-1]) & np.isclose(x, self.x[-1], rtol=1e-12, atol=1e-14)] = self.y[-1]
 
         return y if iterable else y[0]
 
-- 
2.43.0


From 2011d38bc6f3f1efb6ba581251472bb83a04d596 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:08:05 +0000
Subject: [PATCH 32/32] fix: recognise a binary ACE library whose bytes are all
 ASCII

---
 ASAPy/data/ace.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ASAPy/data/ace.py b/ASAPy/data/ace.py
index deeaeb6..ef5f9f0 100644
--- a/ASAPy/data/ace.py
+++ b/ASAPy/data/ace.py
@@ -233,8 +233,9 @@ class Library(EqualityMixin):
             # Grab 10 lines of the library
             sb = b''.join([fh.readline() for i in range(10)])
 
-            # Try to decode it with ascii
-            sb.decode('ascii')
+            # Try to decode it with ascii. All bytes of a binary file may happen to
+            # be valid ascii, but only a binary file has null bytes
+            sb.replace(b'\0', b'\xff').decode('ascii')
 
             # No exception so proceed with ASCII - reopen in non-binary
             fh.close()
-- 
2.43.0

