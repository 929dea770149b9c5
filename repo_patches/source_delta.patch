From dcacf2d64ffcee0b42c14d087bf10638fb562be7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:57 +0000
Subject: [PATCH 01/30] fix: bwmorph_thin called np.in1d, which current NumPy
 no longer has

---
 pyEdgeEval/preprocess/thin/bwmorph_thin.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyEdgeEval/preprocess/thin/bwmorph_thin.py b/pyEdgeEval/preprocess/thin/bwmorph_thin.py
index dacd5a4..d160d55 100644
--- a/pyEdgeEval/preprocess/thin/bwmorph_thin.py
+++ b/pyEdgeEval/preprocess/thin/bwmorph_thin.py
@@ -114,7 +114,7 @@ def bwmorph_thin(image, n_iter=None):
 
     if skel.ndim != 2:
         raise ValueError("2D array required")
-    if not np.all(np.in1d(image.flat, (0, 1))):
+    if not np.all(np.isin(image, (0, 1))):
         raise ValueError("Image contains values other than 0 and 1")
 
     # neighborhood mask
-- 
2.43.0


From 4df63804db5fb632581f3ba18e521ab60205c9a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:57 +0000
Subject: [PATCH 02/30] fix: binary_thin stopped as soon as one of its two
 sub-iterations changed nothing

---
 pyEdgeEval/preprocess/thin/thin.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/pyEdgeEval/preprocess/thin/thin.py b/pyEdgeEval/preprocess/thin/thin.py
index b843c5c..841b88c 100644
--- a/pyEdgeEval/preprocess/thin/thin.py
+++ b/pyEdgeEval/preprocess/thin/thin.py
@@ -262,20 +262,20 @@ def binary_thin(x, max_iter=None):
         # Iter 1
         lut_indices = binary_image_to_lut_indices(x)
         # FIXME: index "" is out of bounds for axis 0 with size 512
-        x_mut = thin1_mut[lut_indices]
-        if x_mut.sum() == 0:
-            break
+        changed = bool(thin1_mut[lut_indices].any())
 
         x = thin1[lut_indices]
 
         # Iter 2
         lut_indices = binary_image_to_lut_indices(x)
-        x_mut = thin2_mut[lut_indices]
-        if x_mut.sum() == 0:
-            break
+        changed = changed or bool(thin2_mut[lut_indices].any())
 
         x = thin2[lut_indices]
 
+        # converged only when neither sub-iteration changed anything
+        if not changed:
+            break
+
         iter_count += 1
 
     return x
-- 
2.43.0


From a2c96bcab1206574ccc8b11333e832de7c270cc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:57 +0000
Subject: [PATCH 03/30] fix: default_multilabel_encoding overflowed on uint8
 edges with more than 8 classes

---
 pyEdgeEval/common/multi_label/edge_encoding.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyEdgeEval/common/multi_label/edge_encoding.py b/pyEdgeEval/common/multi_label/edge_encoding.py
index 22945b0..edb6006 100644
--- a/pyEdgeEval/common/multi_label/edge_encoding.py
+++ b/pyEdgeEval/common/multi_label/edge_encoding.py
@@ -21,7 +21,7 @@ def default_multilabel_encoding(edges: np.ndarray):
 
     cat_edge_map = np.zeros((h, w), dtype=np.uint32)
     for trainId in range(num_classes):
-        edge_map = edges[trainId]
+        edge_map = edges[trainId].astype(np.uint32)
         cat_edge_map = cat_edge_map + (2**trainId) * edge_map
 
     return cat_edge_map
-- 
2.43.0


From bcf3641e7b1eb8b2274b78c1802dd73d2c3c16ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:57 +0000
Subject: [PATCH 04/30] fix: edge_onehot2multilabel overflowed on uint8 edges
 with more than 8 classes

---
 pyEdgeEval/utils/convert_formats.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyEdgeEval/utils/convert_formats.py b/pyEdgeEval/utils/convert_formats.py
index 35e1ef7..2993621 100644
--- a/pyEdgeEval/utils/convert_formats.py
+++ b/pyEdgeEval/utils/convert_formats.py
@@ -35,7 +35,7 @@ def edge_onehot2multilabel(edges: np.ndarray) -> np.ndarray:
 
     edge_map = np.zeros((h, w), dtype=np.uint32)
     for l in range(labels):
-        m = edges[l]
+        m = edges[l].astype(np.uint32)
         edge_map = edge_map + (2**l) * m
 
     return edge_map
-- 
2.43.0


From aabb33044edc0bf55aa06fe225fb0df1d83d11ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:57 +0000
Subject: [PATCH 05/30] fix: saving Cityscapes edges as .bin passed an argument
 tofile does not take

---
 pyEdgeEval/helpers/convert_cityscapes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyEdgeEval/helpers/convert_cityscapes.py b/pyEdgeEval/helpers/convert_cityscapes.py
index 4b1909b..1972cac 100644
--- a/pyEdgeEval/helpers/convert_cityscapes.py
+++ b/pyEdgeEval/helpers/convert_cityscapes.py
@@ -183,7 +183,7 @@ def convert_label_to_semantic_edges(
         edges_img.save(proc_file)
     elif save_format == ".bin":
         edges = default_multilabel_encoding(edge_trainIds)
-        edges.tofile(proc_file, dtype=np.uint32)
+        edges.astype(np.uint32).tofile(proc_file)
     else:
         raise ValueError()
 
-- 
2.43.0


From 8772843a744ac86d10b195aebc7027006e06dcaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:57 +0000
Subject: [PATCH 06/30] fix: mask2onehot rejected images with fewer rows than
 there are labels

---
 pyEdgeEval/utils/convert_formats.py | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/pyEdgeEval/utils/convert_formats.py b/pyEdgeEval/utils/convert_formats.py
index 2993621..9213f12 100644
--- a/pyEdgeEval/utils/convert_formats.py
+++ b/pyEdgeEval/utils/convert_formats.py
@@ -8,13 +8,9 @@ def mask2onehot(mask, labels):
     Converts a segmentation mask (H,W) to (K,H,W) where the last dim is a one
     hot encoding vector
     """
-    c = mask.shape[0]
     assert (
         len(labels) > 0
     ), "`labels` should be a list with more than 1 elements"
-    assert c >= len(
-        labels
-    ), "tried to convert into onehot with more labels than the original mask"
     _mask = [mask == i for i in labels]
     return np.array(_mask).astype(np.uint8)
 
-- 
2.43.0


From 4c1bcf082d96fc5f887eaf63a364988a64e9fef1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:57 +0000
Subject: [PATCH 07/30] fix: mask_label2trainId failed on the single-channel
 (h, w, 1) masks it accepts

---
 pyEdgeEval/utils/convert_formats.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyEdgeEval/utils/convert_formats.py b/pyEdgeEval/utils/convert_formats.py
index 9213f12..8bda541 100644
--- a/pyEdgeEval/utils/convert_formats.py
+++ b/pyEdgeEval/utils/convert_formats.py
@@ -52,6 +52,7 @@ def mask_label2trainId(mask: np.ndarray, label2trainId: dict) -> np.ndarray:
     elif len(mask.shape) == 3:
         h, w, c = mask.shape
         assert c == 1, f"ERR: input label has {c} channels which should be 1"
+        mask = mask[:, :, 0]
     else:
         raise ValueError()
 
-- 
2.43.0


From 9c11f722edd7485a998aed1ef78d01d26395cf62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:57 +0000
Subject: [PATCH 08/30] fix: the scipy boundary path invented edges for masks
 that are empty or fill the image

---
 pyEdgeEval/utils/distance_transforms.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/pyEdgeEval/utils/distance_transforms.py b/pyEdgeEval/utils/distance_transforms.py
index 05add88..5a988e3 100644
--- a/pyEdgeEval/utils/distance_transforms.py
+++ b/pyEdgeEval/utils/distance_transforms.py
@@ -21,9 +21,17 @@ def cv2_mask2bdry(m, ignore_mask, radius, quality):
     return dist
 
 
+def _scipy_distance(m):
+    """Distance to the nearest zero pixel (infinite when there is none)"""
+    if np.all(m):
+        # `distance_transform_edt` is undefined without any zero pixel
+        return np.full(m.shape, np.inf)
+    return distance_transform_edt(m)
+
+
 def scipy_mask2bdry(m, ignore_mask, radius):
-    inner = distance_transform_edt((m + ignore_mask) > 0)
-    outer = distance_transform_edt(1.0 - m)
+    inner = _scipy_distance((m + ignore_mask) > 0)
+    outer = _scipy_distance(1.0 - m)
     dist = outer + inner
 
     dist[dist > radius] = 0
@@ -44,7 +52,7 @@ def mask2internal(
             ((mask + ignore_mask) > 0).astype(np.uint8), cv2.DIST_L2, quality
         )
     else:
-        inner = distance_transform_edt((mask + ignore_mask) > 0)
+        inner = _scipy_distance((mask + ignore_mask) > 0)
 
     inner[inner > radius] = 0
     return (inner > 0).astype(np.uint8)
-- 
2.43.0


From c783f8a7f2a8c37ae912dae0677648a78f3f9c9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:57 +0000
Subject: [PATCH 09/30] fix: check_thresholds rejected the NumPy arrays it
 documents

---
 pyEdgeEval/common/utils.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyEdgeEval/common/utils.py b/pyEdgeEval/common/utils.py
index 7c1eaea..fafdb97 100644
--- a/pyEdgeEval/common/utils.py
+++ b/pyEdgeEval/common/utils.py
@@ -15,6 +15,9 @@ def check_thresholds(thresholds):
     elif isinstance(thresholds, list):
         # multiple specific thresholds
         thresholds = np.array(thresholds)
+    elif isinstance(thresholds, np.ndarray):
+        # already an array
+        pass
     else:
         raise ValueError(
             "thresholds should be an int or a NumPy array, not "
-- 
2.43.0


From 440f137cb8d00f9129ddf841339ef649dbd7dac1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:57 +0000
Subject: [PATCH 10/30] fix: mp_instance_mask2edge misread instance ids of
 single-digit labels

---
 pyEdgeEval/edge_tools/mask2edge_mp.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pyEdgeEval/edge_tools/mask2edge_mp.py b/pyEdgeEval/edge_tools/mask2edge_mp.py
index 2b7a716..d94754f 100644
--- a/pyEdgeEval/edge_tools/mask2edge_mp.py
+++ b/pyEdgeEval/edge_tools/mask2edge_mp.py
@@ -238,8 +238,10 @@ def mp_instance_mask2edge(
     for inst_label in _cand_insts:
         if inst_label < inst_labels[0] * 1000:  # 24000
             continue
-        _label = int(str(inst_label)[:2])
-        _inst = int(str(inst_label)[2:])
+        # ids are `label * 1000 + instance` (1-digit labels need padding)
+        inst_label = str(inst_label).zfill(5)
+        _label = int(inst_label[:2])
+        _inst = int(inst_label[2:])
         if _label not in label_inst.keys():
             label_inst[_label] = [_inst]
         else:
-- 
2.43.0


From 6d772f33c109c582a0238f794444939802304fa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:57 +0000
Subject: [PATCH 11/30] fix: SBD removed predictions inside the wrong category
 (labelIds start from 1)

---
 pyEdgeEval/datasets/sbd.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyEdgeEval/datasets/sbd.py b/pyEdgeEval/datasets/sbd.py
index 6c86c74..fac0a90 100644
--- a/pyEdgeEval/datasets/sbd.py
+++ b/pyEdgeEval/datasets/sbd.py
@@ -62,7 +62,8 @@ def _evaluate_single(
 
         # need to be careful where the category starts
         # some datasets will skip 0 and start from 1 (like sbd)
-        cat_seg = seg == cat_idx
+        # `seg` is a labelId map, where 0 is the background
+        cat_seg = seg == category
     else:
         cat_seg = None
 
-- 
2.43.0


From 892ae6476ef5781d4262416b67b049fa10aaa6fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:57 +0000
Subject: [PATCH 12/30] fix: AP summed 100 recall levels but averaged over 101

---
 pyEdgeEval/common/binary_label/calculate_metrics.py | 2 +-
 pyEdgeEval/common/multi_label/calculate_metrics.py  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyEdgeEval/common/binary_label/calculate_metrics.py b/pyEdgeEval/common/binary_label/calculate_metrics.py
index 0331197..27ea430 100644
--- a/pyEdgeEval/common/binary_label/calculate_metrics.py
+++ b/pyEdgeEval/common/binary_label/calculate_metrics.py
@@ -137,7 +137,7 @@ def calculate_metrics(
 
     # Calculate AP
     ap = 0
-    for t in np.arange(0, 1, 0.01):
+    for t in np.linspace(0, 1, num=101):
         _r = rec_overall >= t
         p = np.max(prec_overall[_r], initial=0)
         ap = ap + p / 101
diff --git a/pyEdgeEval/common/multi_label/calculate_metrics.py b/pyEdgeEval/common/multi_label/calculate_metrics.py
index 36f0e05..5d2ad2a 100644
--- a/pyEdgeEval/common/multi_label/calculate_metrics.py
+++ b/pyEdgeEval/common/multi_label/calculate_metrics.py
@@ -140,7 +140,7 @@ def calculate_metrics(
 
     # Calculate AP
     ap = 0
-    for t in np.arange(0, 1, 0.01):
+    for t in np.linspace(0, 1, num=101):
         _r = rec_overall >= t
         p = np.max(prec_overall[_r], initial=0)
         ap = ap + p / 101
-- 
2.43.0


From a9445e5eff163bd8d5acf4a6dfbb101fa9e7dddf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:57 +0000
Subject: [PATCH 13/30] fix: SBD evaluation ignored --pred-suffix

---
 pyEdgeEval/helpers/evaluate_sbd.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyEdgeEval/helpers/evaluate_sbd.py b/pyEdgeEval/helpers/evaluate_sbd.py
index fa68114..8543686 100644
--- a/pyEdgeEval/helpers/evaluate_sbd.py
+++ b/pyEdgeEval/helpers/evaluate_sbd.py
@@ -178,6 +178,7 @@ def evaluate(
     evaluator = SBDEvaluator(
         dataset_root=sbd_path,
         pred_root=pred_path,
+        pred_suffix=pred_suffix,
         thin=apply_thinning,
         gt_dir=gt_dir,  # NOTE: we can change the directory where the preprocessed GTs are located
     )
-- 
2.43.0


From d42eadbc0d6fa6207d0271f322bec16362e8adf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:57 +0000
Subject: [PATCH 14/30] fix: evaluate_reanno_sbd always failed on an argument
 evaluate_reanno does not take

---
 pyEdgeEval/helpers/evaluate_sbd.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/pyEdgeEval/helpers/evaluate_sbd.py b/pyEdgeEval/helpers/evaluate_sbd.py
index 8543686..0925462 100644
--- a/pyEdgeEval/helpers/evaluate_sbd.py
+++ b/pyEdgeEval/helpers/evaluate_sbd.py
@@ -368,7 +368,6 @@ def evaluate_reanno_sbd(gt_dir: str = "gtEval"):
         apply_thinning=apply_thinning,
         apply_nms=args.apply_nms,
         nonIS=args.nonIS,
-        max_dist=args.max_dist,
         thresholds=args.thresholds,
         nproc=args.nproc,
     )
-- 
2.43.0


From 1d0488dcc7ba17c2783fd652d76b10ce3da38014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:14 +0000
Subject: [PATCH 15/30] fix: plot_pr_curve could not read the result files the
 evaluators write

---
 pyEdgeEval/common/binary_label/visualize.py | 17 ++++++++--------
 pyEdgeEval/visualization/pr_curve.py        | 22 ++++++++++++---------
 2 files changed, 22 insertions(+), 17 deletions(-)

diff --git a/pyEdgeEval/common/binary_label/visualize.py b/pyEdgeEval/common/binary_label/visualize.py
index f3431a5..d31bc5d 100644
--- a/pyEdgeEval/common/binary_label/visualize.py
+++ b/pyEdgeEval/common/binary_label/visualize.py
@@ -61,29 +61,30 @@ def plot_pr_curve(
 
     # load results for every algorithm (pr=[T, R, P, F])
     n = len(algs)
-    hs, res, prs = [None] * n, np.zeros((n, 9), dtype=np.float32), []
+    # res=[ODS (T, R, P, F), OIS (R, P, F), AUC, AP, R50]
+    hs, res, prs = [None] * n, np.zeros((n, 10), dtype=np.float32), []
     for i, alg in enumerate(algs):
         pr = _load_threshold_data(alg.threshold_results)
-        res[i, :8] = _load_overall_results(alg.overall_results)
-        res[i, 8] = _calc_r50(pr)
+        res[i, :9] = _load_overall_results(alg.overall_results)
+        res[i, 9] = _calc_r50(pr)
         prs.append(pr)
-    prs = np.stack(prs, axis=0)
 
     # sort algorithms by ODS score
     o = np.argsort(res[:, 3])[::-1]
-    res, prs, names, colors = res[o, :], prs[o], names[o], colors[o]
+    res, names, colors = res[o, :], names[o], colors[o]
+    prs = [prs[i] for i in o]
 
     # plot results for every algorithm (plot best last)
     for i in range(n - 1, -1, -1):
         hs[i] = ax.plot(
-            prs[i, :, 1],
-            prs[i, :, 2],
+            prs[i][:, 1],
+            prs[i][:, 2],
             linestyle="-",
             linewidth=3,
             color=colors[i],
         )[0]
         prefix = "ODS={:.3f}, OIS={:.3f}, AP={:.3f}, R50={:.3f}".format(
-            *res[i, [3, 6, 7, 8]]
+            *res[i, [3, 6, 8, 9]]
         )
         prefix += " - {}".format(names[i])
         print(prefix)
diff --git a/pyEdgeEval/visualization/pr_curve.py b/pyEdgeEval/visualization/pr_curve.py
index 2a0da75..03a9798 100644
--- a/pyEdgeEval/visualization/pr_curve.py
+++ b/pyEdgeEval/visualization/pr_curve.py
@@ -53,7 +53,7 @@ def _isometric_contour_line_template(
 
 def _load_threshold_data(data_path):
     assert os.path.exists(data_path), f"ERR: {data_path} doesn't exist"
-    pr = np.loadtxt(data_path)
+    pr = np.loadtxt(data_path, ndmin=2)
     pr = pr[pr[:, 1] >= 1e-3]
     return pr
 
@@ -66,6 +66,9 @@ def _load_overall_results(data_path):
 
 def _calc_r50(pr):
     _, o = np.unique(pr[:, 2], return_index=True)
+    if len(o) < 2:
+        # not enough points to interpolate
+        return np.nan
     r50 = interp1d(
         pr[o, 2],
         pr[o, 1],
@@ -102,29 +105,30 @@ def plot_pr_curve(
 
     # load results for every algorithm (pr=[T, R, P, F])
     n = len(algs)
-    hs, res, prs = [None] * n, np.zeros((n, 9), dtype=np.float32), []
+    # res=[ODS (T, R, P, F), OIS (R, P, F), AUC, AP, R50]
+    hs, res, prs = [None] * n, np.zeros((n, 10), dtype=np.float32), []
     for i, alg in enumerate(algs):
         pr = _load_threshold_data(alg.threshold_results)
-        res[i, :8] = _load_overall_results(alg.overall_results)
-        res[i, 8] = _calc_r50(pr)
+        res[i, :9] = _load_overall_results(alg.overall_results)
+        res[i, 9] = _calc_r50(pr)
         prs.append(pr)
-    prs = np.stack(prs, axis=0)
 
     # sort algorithms by ODS score
     o = np.argsort(res[:, 3])[::-1]
-    res, prs, names, colors = res[o, :], prs[o], names[o], colors[o]
+    res, names, colors = res[o, :], names[o], colors[o]
+    prs = [prs[i] for i in o]
 
     # plot results for every algorithm (plot best last)
     for i in range(n - 1, -1, -1):
         hs[i] = ax.plot(
-            prs[i, :, 1],
-            prs[i, :, 2],
+            prs[i][:, 1],
+            prs[i][:, 2],
             linestyle="-",
             linewidth=3,
             color=colors[i],
         )[0]
         prefix = "ODS={:.3f}, OIS={:.3f}, AP={:.3f}, R50={:.3f}".format(
-            *res[i, [3, 6, 7, 8]]
+            *res[i, [3, 6, 8, 9]]
         )
         prefix += " - {}".format(names[i])
         print(prefix)  # should remove
-- 
2.43.0


From a451ac15b51acabc3b74fce0b83695ae70165c73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:36 +0000
Subject: [PATCH 16/30] fix: nms read past the end of images one pixel wide or
 high

---
 pyEdgeEval/_lib/src/benms.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyEdgeEval/_lib/src/benms.cc b/pyEdgeEval/_lib/src/benms.cc
index 68326e1..4fe460c 100644
--- a/pyEdgeEval/_lib/src/benms.cc
+++ b/pyEdgeEval/_lib/src/benms.cc
@@ -15,7 +15,8 @@ inline double interp(const Matrix& I, int h, int w, double x, double y)
   x = x < 0 ? 0 : (x > w - 1.001 ? w - 1.001 : x);
   y = y < 0 ? 0 : (y > h - 1.001 ? h - 1.001 : y);
   int x0 = int(x), y0 = int(y);
-  int x1 = x0 + 1, y1 = y0 + 1;
+  // an image one pixel wide or high has no next column or row
+  int x1 = x0 + 1 < w ? x0 + 1 : x0, y1 = y0 + 1 < h ? y0 + 1 : y0;
   double dx0 = x - x0, dy0 = y - y0;
   double dx1 = 1 - dx0, dy1 = 1 - dy0;
   double out = I(y0, x0) * dx1 * dy1 +
-- 
2.43.0


From 0b4e1a43985b5b27ba257b5904d57abd2f94b34c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:39 +0000
Subject: [PATCH 17/30] fix: a failing parallel evaluation left its worker
 processes behind

---
 pyEdgeEval/utils/progressbar.py | 28 +++++++++++++++++-----------
 1 file changed, 17 insertions(+), 11 deletions(-)

diff --git a/pyEdgeEval/utils/progressbar.py b/pyEdgeEval/utils/progressbar.py
index b237ecb..80f1cab 100644
--- a/pyEdgeEval/utils/progressbar.py
+++ b/pyEdgeEval/utils/progressbar.py
@@ -186,17 +186,23 @@ def track_parallel_progress(
         gen = pool.imap(func, tasks, chunksize)
     else:
         gen = pool.imap_unordered(func, tasks, chunksize)
-    for result in gen:
-        results.append(result)
-        if skip_first:
-            if len(results) < nproc * chunksize:
-                continue
-            elif len(results) == nproc * chunksize:
-                if not no_bar:
-                    prog_bar.start()
-                continue
-        if not no_bar:
-            prog_bar.update()
+    try:
+        for result in gen:
+            results.append(result)
+            if skip_first:
+                if len(results) < nproc * chunksize:
+                    continue
+                elif len(results) == nproc * chunksize:
+                    if not no_bar:
+                        prog_bar.start()
+                    continue
+            if not no_bar:
+                prog_bar.update()
+    except BaseException:
+        # never leave the worker processes behind
+        pool.terminate()
+        pool.join()
+        raise
     if not no_bar:
         prog_bar.file.write("\n")
     pool.close()
-- 
2.43.0


From 3c35fabb68df304979ec10c5a18788fccdf00ba6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:35 +0000
Subject: [PATCH 18/30] fix: a failing parallel evaluation could hang while its
 workers were terminated

---
 pyEdgeEval/utils/progressbar.py | 39 +++++++++++++++++++++++++++------
 1 file changed, 32 insertions(+), 7 deletions(-)

diff --git a/pyEdgeEval/utils/progressbar.py b/pyEdgeEval/utils/progressbar.py
index 80f1cab..160fb39 100644
--- a/pyEdgeEval/utils/progressbar.py
+++ b/pyEdgeEval/utils/progressbar.py
@@ -8,7 +8,8 @@
 
 import sys
 from collections.abc import Iterable
-from multiprocessing import Pool
+from functools import partial
+from multiprocessing import Pool, RawValue
 from shutil import get_terminal_size
 
 from .timer import Timer
@@ -126,6 +127,23 @@ def init_pool(process_num, initializer=None, initargs=None):
         return Pool(process_num, initializer, initargs)
 
 
+_stopped = None  # set in the workers
+
+
+def _init_worker(stopped, initializer, initargs):
+    global _stopped
+    _stopped = stopped
+    if initializer is not None:
+        initializer(*initargs)
+
+
+def _run_task(func, task):
+    # once a task has failed, the remaining ones are skipped
+    if _stopped.value:
+        return None
+    return func(task)
+
+
 def track_parallel_progress(
     func,
     tasks,
@@ -176,16 +194,21 @@ def track_parallel_progress(
         raise TypeError(
             '"tasks" must be an iterable object or a (iterator, int) tuple'
         )
-    pool = init_pool(nproc, initializer, initargs)
+    if initializer is None or initargs is None:
+        initargs = ()
+    elif not isinstance(initargs, tuple):
+        raise TypeError('"initargs" must be a tuple')
+    stopped = RawValue("b", 0)
+    pool = init_pool(nproc, _init_worker, (stopped, initializer, initargs))
     start = not skip_first
     task_num -= nproc * chunksize * int(skip_first)
     if not no_bar:
         prog_bar = ProgressBar(task_num, bar_width, start, file=file)
     results = []
     if keep_order:
-        gen = pool.imap(func, tasks, chunksize)
+        gen = pool.imap(partial(_run_task, func), tasks, chunksize)
     else:
-        gen = pool.imap_unordered(func, tasks, chunksize)
+        gen = pool.imap_unordered(partial(_run_task, func), tasks, chunksize)
     try:
         for result in gen:
             results.append(result)
@@ -198,9 +221,11 @@ def track_parallel_progress(
                     continue
             if not no_bar:
                 prog_bar.update()
-    except BaseException:
-        # never leave the worker processes behind
-        pool.terminate()
+    except Exception:
+        # never leave the worker processes behind; terminating them instead
+        # can hang when one of them is just sending its result
+        stopped.value = 1
+        pool.close()
         pool.join()
         raise
     if not no_bar:
-- 
2.43.0


From 39e8c4c602d3d95fe917383a665bbb274e4c3c2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:27 +0000
Subject: [PATCH 19/30] fix: get_logger left loggers whose name only starts
 like another one without handlers

---
 pyEdgeEval/utils/logger.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyEdgeEval/utils/logger.py b/pyEdgeEval/utils/logger.py
index 8632123..199a7ff 100644
--- a/pyEdgeEval/utils/logger.py
+++ b/pyEdgeEval/utils/logger.py
@@ -41,7 +41,7 @@ def get_logger(name, log_file=None, log_level=logging.INFO, file_mode="w"):
     # e.g., logger "a" is initialized, then logger "a.b" will skip the
     # initialization since it is a child of "a".
     for logger_name in logger_initialized:
-        if name.startswith(logger_name):
+        if name.startswith(f"{logger_name}."):
             return logger
 
     stream_handler = logging.StreamHandler()
-- 
2.43.0


From a8f024e6aaa6ef4fae89594c33b232aae78cdc6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:46 +0000
Subject: [PATCH 20/30] fix: SBD annotations could not be read with SciPy
 versions that load sparse arrays

---
 pyEdgeEval/utils/mat_utils.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/pyEdgeEval/utils/mat_utils.py b/pyEdgeEval/utils/mat_utils.py
index 7b4c518..7c99baf 100644
--- a/pyEdgeEval/utils/mat_utils.py
+++ b/pyEdgeEval/utils/mat_utils.py
@@ -4,7 +4,7 @@ import os
 
 # libraries used for .mat io
 from scipy.io import loadmat as scipy_loadmat
-from scipy.sparse import csc_matrix
+from scipy.sparse import csc_matrix, issparse
 
 try:
     # prefer `pymatreader`
@@ -35,7 +35,6 @@ def loadmat(
 
 def sparse2numpy(data: csc_matrix):
     """helper function to convert compressed sparse column matrix to numpy array"""
-    assert isinstance(
-        data, csc_matrix
-    ), f"ERR: input is not csc_matrix, but got {type(data)}"
+    # NOTE: newer scipy loads nested sparse data as `csc_array`
+    assert issparse(data), f"ERR: input is not sparse, but got {type(data)}"
     return data.toarray()
-- 
2.43.0


From 09d804426aa2b4572579ab8c16d3e6a215a5c488 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:54 +0000
Subject: [PATCH 21/30] fix: the SBD instance map could not be saved with
 Pillow versions that no longer write 32-bit PNG

---
 pyEdgeEval/helpers/convert_sbd.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyEdgeEval/helpers/convert_sbd.py b/pyEdgeEval/helpers/convert_sbd.py
index 59ac25d..fee2d2a 100644
--- a/pyEdgeEval/helpers/convert_sbd.py
+++ b/pyEdgeEval/helpers/convert_sbd.py
@@ -352,7 +352,8 @@ def routine(
         train_img.save(osp.join(save_dir, f"{sample_name}{train_suffix}"))
 
         # save instance
-        inst_img = Image.fromarray(inst)
+        # NOTE: 16 bits are enough for the ids and can be saved as PNG
+        inst_img = Image.fromarray(inst.astype(np.uint16))
         inst_img.save(osp.join(save_dir, f"{sample_name}{inst_suffix}"))
 
 
-- 
2.43.0


From 6f8f8c0f3ec3aa3f0e14bdc293ebf25b62227f6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:17 +0000
Subject: [PATCH 22/30] fix: load_reanno_samples failed on a list with one
 sample

---
 pyEdgeEval/helpers/convert_sbd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyEdgeEval/helpers/convert_sbd.py b/pyEdgeEval/helpers/convert_sbd.py
index fee2d2a..f5fadf0 100644
--- a/pyEdgeEval/helpers/convert_sbd.py
+++ b/pyEdgeEval/helpers/convert_sbd.py
@@ -379,7 +379,7 @@ def load_reanno_samples(path: str, new_loader: bool = False):
     else:
         test = loadmat(path, False)["listTest"]
         # HACK: nested structured array of string
-        test = [t.tolist()[0] for t in test.squeeze()]
+        test = [t.tolist()[0] for t in test.ravel()]
 
     return test
 
-- 
2.43.0


From 442b00e419524fb6e9bce4f22448e35d425fbb54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:09 +0000
Subject: [PATCH 23/30] fix: the new loader could not read SBD annotations with
 a single instance

---
 pyEdgeEval/helpers/convert_sbd.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyEdgeEval/helpers/convert_sbd.py b/pyEdgeEval/helpers/convert_sbd.py
index f5fadf0..1bf1712 100644
--- a/pyEdgeEval/helpers/convert_sbd.py
+++ b/pyEdgeEval/helpers/convert_sbd.py
@@ -9,6 +9,7 @@ from typing import Optional
 
 import numpy as np
 from PIL import Image
+from scipy.sparse import issparse
 
 from pyEdgeEval.common.multi_label import (
     rgb_multilabel_encoding,
@@ -82,6 +83,9 @@ def load_sbd_gt_inst_mat(path: str, new_loader: bool = False):
         segmentation = gt["Segmentation"]
         boundaries = gt["Boundaries"]
         categories = gt["Categories"]
+        if issparse(boundaries):
+            # single instance
+            boundaries = [boundaries]
         if isinstance(categories, int):
             categories = np.array([categories])
         if categories.ndim == 0:
-- 
2.43.0


From 745963af7866707b8bfe1803bb0ab7e549620c9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:56 +0000
Subject: [PATCH 24/30] fix: Cityscapes conversion wrote outside of a root
 whose path contains gtFine

---
 pyEdgeEval/helpers/convert_cityscapes.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pyEdgeEval/helpers/convert_cityscapes.py b/pyEdgeEval/helpers/convert_cityscapes.py
index 1972cac..ad56dd7 100644
--- a/pyEdgeEval/helpers/convert_cityscapes.py
+++ b/pyEdgeEval/helpers/convert_cityscapes.py
@@ -48,7 +48,8 @@ def convert_json_to_label(
 ) -> None:
     json_dir = osp.dirname(json_file)
     json_fn = osp.basename(json_file)
-    proc_dir = json_dir.replace("gtFine", proc_dir)
+    # only the last one; the root might have the same name
+    proc_dir = proc_dir.join(json_dir.rsplit("gtFine", 1))
     proc_fn = json_fn.replace(poly_suffix, id_suffix)
     mkdir_or_exist(proc_dir)
     proc_file = osp.join(proc_dir, proc_fn)
@@ -97,7 +98,8 @@ def convert_label_to_semantic_edges(
         assert radius == 1, "ERR: `thin` requires radius=1"
     label_dir = osp.dirname(label_file)
     label_fn = osp.basename(label_file)
-    proc_dir = label_dir.replace("gtFine", proc_dir)
+    # only the last one; the root might have the same name
+    proc_dir = proc_dir.join(label_dir.rsplit("gtFine", 1))
     proc_fn = label_fn.replace(label_suffix, edge_suffix)
 
     mkdir_or_exist(proc_dir)
-- 
2.43.0


From 4c21767e71e96dab7cbb6d9d2ae57de60cc98869 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:47 +0000
Subject: [PATCH 25/30] fix: nms_results saved every map under a name made from
 its first character and overwrote existing results

---
 pyEdgeEval/preprocess/nms/fast_nms.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyEdgeEval/preprocess/nms/fast_nms.py b/pyEdgeEval/preprocess/nms/fast_nms.py
index 5ed4dee..99464aa 100644
--- a/pyEdgeEval/preprocess/nms/fast_nms.py
+++ b/pyEdgeEval/preprocess/nms/fast_nms.py
@@ -113,9 +113,10 @@ def nms_results(result_dir, save_dir, loader):
         os.makedirs(save_dir)
 
     for file in os.listdir(result_dir):
-        save_name = os.path.join(save_dir, f"{os.path.splitext(file[0])}.png")
+        save_name = os.path.join(save_dir, f"{os.path.splitext(file)[0]}.png")
         if os.path.isfile(save_name):
             print(f"file: {save_name} exists... skipping")
+            continue
         img_path = os.path.join(result_dir, file)
         # load image
         img = loader(img_path)
-- 
2.43.0


From 742f63af331c6512df691afda4f536b5f3478394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:17 +0000
Subject: [PATCH 26/30] fix: leave the settings alone when a configuration is
 rejected

CityscapesEvaluator and HalfCityscapesEvaluator had already taken over the
scale, thinning and suppression of a pre-SEAL configuration with instance
sensitive edges when they rejected it, so that an evaluation after the
rejected call used a mixture of two configurations.
---
 pyEdgeEval/evaluators/cityscapes.py      | 7 ++++---
 pyEdgeEval/evaluators/half_cityscapes.py | 7 ++++---
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/pyEdgeEval/evaluators/cityscapes.py b/pyEdgeEval/evaluators/cityscapes.py
index 20cb61d..27cc25f 100644
--- a/pyEdgeEval/evaluators/cityscapes.py
+++ b/pyEdgeEval/evaluators/cityscapes.py
@@ -155,15 +155,16 @@ class CityscapesEvaluator(BaseMultilabelEvaluator):
     ) -> None:
 
         assert 0 < scale <= 1, f"ERR: scale ({scale}) is not valid"
+        # reject before any of the settings is changed
+        assert not (
+            eval_mode == "pre-seal" and instance_sensitive
+        ), "Pre-SEAL configuration doesn't support instance sensitive edges"
         self.scale = scale
         self.apply_thinning = apply_thinning
         self.apply_nms = apply_nms
 
         if eval_mode == "pre-seal":
             print_log("Using Pre-SEAL params", logger=self._logger)
-            assert (
-                not instance_sensitive
-            ), "Pre-SEAL configuration doesn't support instance sensitive edges"
             self.max_dist = 0.02
             self.kill_internal = True
             self.skip_if_nonexistent = True
diff --git a/pyEdgeEval/evaluators/half_cityscapes.py b/pyEdgeEval/evaluators/half_cityscapes.py
index ae73c56..9db01d3 100644
--- a/pyEdgeEval/evaluators/half_cityscapes.py
+++ b/pyEdgeEval/evaluators/half_cityscapes.py
@@ -39,14 +39,15 @@ class HalfCityscapesEvaluator(CityscapesEvaluator):
         **kwargs,
     ) -> None:
 
+        # reject before any of the settings is changed
+        assert not (
+            eval_mode == "pre-seal" and instance_sensitive
+        ), "Pre-SEAL configuration doesn't support instance sensitive edges"
         self.apply_thinning = apply_thinning
         self.apply_nms = apply_nms
 
         if eval_mode == "pre-seal":
             print_log("Using Pre-SEAL params", logger=self._logger)
-            assert (
-                not instance_sensitive
-            ), "Pre-SEAL configuration doesn't support instance sensitive edges"
             self.max_dist = 0.02
             self.kill_internal = True
             self.skip_if_nonexistent = True
-- 
2.43.0


From 3d91e68d3b5802841c6ecbe440e989ac41594ae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:11 +0000
Subject: [PATCH 27/30] fix: an edge without a finite orientation no longer
 ends the process in nms

A NaN or infinite pixel makes the orientation NaN; the suppression then
indexed the image with it, and the C++ exception for the index outside the
image is not caught by the binding, so the interpreter was aborted.
---
 pyEdgeEval/_lib/src/benms.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pyEdgeEval/_lib/src/benms.cc b/pyEdgeEval/_lib/src/benms.cc
index 4fe460c..7ab7743 100644
--- a/pyEdgeEval/_lib/src/benms.cc
+++ b/pyEdgeEval/_lib/src/benms.cc
@@ -1,3 +1,4 @@
+#include <cmath>
 #include <math.h>
 #include <assert.h>
 #include "Matrix.hh"
@@ -47,6 +48,10 @@ void benms(Matrix& out, const Matrix& edge, const Matrix& ori, int r, int s, dou
       if (e == 0) {
         continue;
       }
+      // without an orientation there is no direction to compare with
+      if (!std::isfinite(ori(y, x))) {
+        continue;
+      }
       e *= m;
       double cos_o = cos(ori(y, x));
       double sin_o = sin(ori(y, x));
-- 
2.43.0


From 7ba63b31649af4a8afd23b6e0d70154e0873fc77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:19 +0000
Subject: [PATCH 28/30] fix: edge comparison fails when the dataset root
 contains the reference directory's name

---
 pyEdgeEval/helpers/convert_cityscapes.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyEdgeEval/helpers/convert_cityscapes.py b/pyEdgeEval/helpers/convert_cityscapes.py
index ad56dd7..bf33742 100644
--- a/pyEdgeEval/helpers/convert_cityscapes.py
+++ b/pyEdgeEval/helpers/convert_cityscapes.py
@@ -216,7 +216,8 @@ def test_edges(
 ) -> None:
     edge_dir = osp.dirname(edge_file)
     edge_fn = osp.basename(edge_file)
-    test_dir = edge_dir.replace(orig_dir, test_dir)
+    # only the last occurrence: the root may contain the same name
+    test_dir = test_dir.join(edge_dir.rsplit(orig_dir, 1))
     test_file = osp.join(test_dir, edge_fn)
     test_file = test_file.replace(orig_suffix, test_suffix)
     _, ext = osp.splitext(edge_file)
-- 
2.43.0


From d1717491f65c767eed59cc0d9997db6f8b4fcffd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:02:48 +0000
Subject: [PATCH 29/30] fix: parallel tracking drops results silently when a
 task raises StopIteration

---
 pyEdgeEval/utils/progressbar.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pyEdgeEval/utils/progressbar.py b/pyEdgeEval/utils/progressbar.py
index 160fb39..f7ca54d 100644
--- a/pyEdgeEval/utils/progressbar.py
+++ b/pyEdgeEval/utils/progressbar.py
@@ -141,7 +141,11 @@ def _run_task(func, task):
     # once a task has failed, the remaining ones are skipped
     if _stopped.value:
         return None
-    return func(task)
+    try:
+        return func(task)
+    except StopIteration as e:
+        # raised from the result iterator it would look like its end
+        raise RuntimeError("task raised StopIteration") from e
 
 
 def track_parallel_progress(
-- 
2.43.0


From cb5d2f70d107d641e3571de3eef7179e59147e7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:13:31 +0000
Subject: [PATCH 30/30] fix: kill_internal removes nothing with an integer
 region

---
 pyEdgeEval/common/multi_label/options.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyEdgeEval/common/multi_label/options.py b/pyEdgeEval/common/multi_label/options.py
index dc05897..b3f97de 100644
--- a/pyEdgeEval/common/multi_label/options.py
+++ b/pyEdgeEval/common/multi_label/options.py
@@ -18,6 +18,9 @@ def kill_internal_prediction(
     diag = np.sqrt(pred.shape[0] ** 2 + pred.shape[1] ** 2)
     buffer = diag * max_dist
 
+    # NOTE: inverting integers would not give a mask
+    seg = np.asarray(seg).astype(bool)
+
     # buggy output when input is only 0s or 1s
     distmap = distance_transform_edt(1 - gt)
     killmask = np.invert((distmap > buffer) * seg)
-- 
2.43.0

