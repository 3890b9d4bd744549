From e9b3351fe38b991e0c668b4cffe60fb60f56a68d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:00 +0000
Subject: [PATCH 01/43] fix: simulated overviews round odd sizes up like the
 announced dsize

---
 delayed_image/delayed_nodes.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/delayed_image/delayed_nodes.py b/delayed_image/delayed_nodes.py
index c59219a..7830459 100644
--- a/delayed_image/delayed_nodes.py
+++ b/delayed_image/delayed_nodes.py
@@ -3146,17 +3146,14 @@ class DelayedOverview(DelayedImage):
             ub.paragraph(
                 """
             The underlying data does not have overviews.
-            Simulating the overview using a imresize operation.
+            Simulating the overview using nearest sampling.
             """
             )
         )
         sub_final = np.asarray(sub_final)
-        final = kwimage.imresize(
-            sub_final,
-            scale=1 / 2**overview,
-            interpolation='nearest',
-            # antialias=True
-        )
+        # Nearest sampling, which rounds up odd sizes like gdal overviews do
+        step = 2**overview
+        final = sub_final[::step, ::step]
         return final
 
     def optimize(
-- 
2.43.0


From d7e5ca59955c59aa15b09e607a1b4652b5ed092b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:00 +0000
Subject: [PATCH 02/43] fix: lazy and padded crops respect chan_idxs

---
 delayed_image/delayed_nodes.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/delayed_image/delayed_nodes.py b/delayed_image/delayed_nodes.py
index 7830459..0f90975 100644
--- a/delayed_image/delayed_nodes.py
+++ b/delayed_image/delayed_nodes.py
@@ -327,11 +327,14 @@ class ImageOpsMixin:
             # anything then skip it.
             assert self.dsize is not None
             assert all(d is not None for d in self.dsize)
-            assert space_slice is not None
             w, h = self.dsize
-            sl_y, sl_x = space_slice
+            if space_slice is None:
+                sl_y, sl_x = slice(None), slice(None)
+            else:
+                sl_y, sl_x = space_slice
             is_noop = (
-                (sl_y.start is None or sl_y.start == 0)
+                chan_idxs is None
+                and (sl_y.start is None or sl_y.start == 0)
                 and (sl_y.stop is None or sl_y.stop == h)
                 and (sl_x.start is None or sl_x.start == 0)
                 and (sl_x.stop is None or sl_x.stop == w)
@@ -354,6 +357,8 @@ class ImageOpsMixin:
             # Currently padding doesn't really work with crops, so its not
             # efficient, but we can hack it to work with warps.
             new = self._padded_crop(space_slice, pad=pad)
+            if chan_idxs is not None:
+                new = DelayedCrop(new, None, chan_idxs)
         else:
             # Normal efficient case
             # FIXME: This is using index-based slices and it there needs to be
-- 
2.43.0


From 7d13c52c6e64ee7c8cdb5d49f2de02a7b64749c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:00 +0000
Subject: [PATCH 03/43] fix: as_xarray with channel aliases, slice codes, or 2D
 data

---
 delayed_image/delayed_nodes.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/delayed_image/delayed_nodes.py b/delayed_image/delayed_nodes.py
index 0f90975..1972ecf 100644
--- a/delayed_image/delayed_nodes.py
+++ b/delayed_image/delayed_nodes.py
@@ -1654,9 +1654,9 @@ class DelayedAsXarray(DelayedImage):
         channels = self.subdata.channels
         coords = {}
         if channels is not None:
-            coords['c'] = channels.code_list()
-            if len(subfinal.shape) == 2:
-                subfinal = subfinal[:, :, None]
+            coords['c'] = channels.normalize().code_list()
+        if len(subfinal.shape) == 2:
+            subfinal = subfinal[:, :, None]
         final = xr.DataArray(subfinal, dims=('y', 'x', 'c'), coords=coords)
         return final
 
-- 
2.43.0


From 9f2e34e275b2c550d6f87d8bdf68e41a4bfcbcea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:00 +0000
Subject: [PATCH 04/43] fix: nan leafs without channel names keep their number
 of channels

---
 delayed_image/delayed_leafs.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/delayed_image/delayed_leafs.py b/delayed_image/delayed_leafs.py
index b576d19..d98a0bc 100644
--- a/delayed_image/delayed_leafs.py
+++ b/delayed_image/delayed_leafs.py
@@ -412,8 +412,11 @@ class DelayedNans(DelayedImageLeaf):
         assert space_slice is not None
         if chan_idxs is None:
             channels = self.channels
+            if channels is None:
+                channels = self.num_channels
+        elif self.channels is None:
+            channels = len(chan_idxs)
         else:
-            assert self.channels is not None
             channels = self.channels[chan_idxs]
         dsize = self.dsize
         assert dsize is not None
@@ -437,7 +440,10 @@ class DelayedNans(DelayedImageLeaf):
             DelayedImage
         """
         # Warping does nothing to nans, except maybe changing the dsize
-        new = self.__class__(dsize, channels=self.channels, **self._kwargs)
+        channels = self.channels
+        if channels is None:
+            channels = self.num_channels
+        new = self.__class__(dsize, channels=channels, **self._kwargs)
         if TRACE_OPTIMIZE:
             new._opt_logs.append('Nans._optimized_warp')
         return new
-- 
2.43.0


From b8b1b3593ef65a36b5ba8fc6619fffcf9731448f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:00 +0000
Subject: [PATCH 05/43] fix: number of overviews left when the data has fewer
 or unknown

---
 delayed_image/delayed_nodes.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/delayed_image/delayed_nodes.py b/delayed_image/delayed_nodes.py
index 1972ecf..800fdee 100644
--- a/delayed_image/delayed_nodes.py
+++ b/delayed_image/delayed_nodes.py
@@ -3131,7 +3131,8 @@ class DelayedOverview(DelayedImage):
             int
         """
         # This operation reduces the number of available overviews
-        num_remain = self.subdata.num_overviews - self.meta['overview']
+        num_overviews = self.subdata.num_overviews or 0
+        num_remain = max(0, num_overviews - self.meta['overview'])
         return num_remain
 
     def _finalize(self) -> ArrayLike:
-- 
2.43.0


From a5a9e5c0b54394c6e0c4294a46df78b2de7ef116 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:00 +0000
Subject: [PATCH 06/43] fix: optimizing an overview keeps its size and the warp
 parameters

---
 delayed_image/delayed_nodes.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/delayed_image/delayed_nodes.py b/delayed_image/delayed_nodes.py
index 800fdee..656c9fb 100644
--- a/delayed_image/delayed_nodes.py
+++ b/delayed_image/delayed_nodes.py
@@ -3284,7 +3284,7 @@ class DelayedOverview(DelayedImage):
 
         if not np.all(np.isclose(np.eye(3), new_outer_warp)):
             # we might have to apply an additional warp at the end.
-            new = new.warp(new_outer_warp)
+            new = new.warp(new_outer_warp, dsize=self.meta['dsize'])
         if TRACE_OPTIMIZE:
             new._opt_logs.append('_opt_crop_after_overview')
         return new
@@ -3348,7 +3348,8 @@ class DelayedOverview(DelayedImage):
         new_outer = C
         new_inner_overview = outer_overview
         new = self.subdata.subdata.get_overview(new_inner_overview)
-        new = new.warp(new_outer)
+        warp_meta = ub.dict_isect(self.subdata.meta, self.subdata._algo_keys)
+        new = new.warp(new_outer, dsize=self.meta['dsize'], **warp_meta)
         if TRACE_OPTIMIZE:
             new._opt_logs.extend(self.subdata._opt_logs)
             new._opt_logs.append('_opt_warp_after_overview')
-- 
2.43.0


From c999708f3bd48d5559d59809552562c93ad7b417 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:00 +0000
Subject: [PATCH 07/43] fix: optimizing a warp keeps its backend

---
 delayed_image/delayed_nodes.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/delayed_image/delayed_nodes.py b/delayed_image/delayed_nodes.py
index 656c9fb..92aeb06 100644
--- a/delayed_image/delayed_nodes.py
+++ b/delayed_image/delayed_nodes.py
@@ -1762,6 +1762,7 @@ class DelayedWarp(DelayedImage):
             'antialias',
             'border_value',
             'noop_eps',
+            'backend',
         ]
 
     @property
-- 
2.43.0


From 0e2683f9bf7b4bdfe0fda9cbd8e69c9d9e161ab2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:00 +0000
Subject: [PATCH 08/43] fix: absorbing an overview no longer changes the dsize
 of the input graph

---
 delayed_image/delayed_nodes.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/delayed_image/delayed_nodes.py b/delayed_image/delayed_nodes.py
index 92aeb06..3cd20bb 100644
--- a/delayed_image/delayed_nodes.py
+++ b/delayed_image/delayed_nodes.py
@@ -2324,6 +2324,8 @@ class DelayedWarp(DelayedImage):
         else:
             # Copy the chain so this does not mutate the input
             chain = [copy.copy(n) for n in chain]
+            for n in chain:
+                n.meta = n.meta.copy()
             for u, v in ub.iter_window(chain, 2):
                 u.subdata = v
             tail = chain[-1]
-- 
2.43.0


From 29c7b3e3427e7bbd51d29ceef358f31af68d3777 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:14 +0000
Subject: [PATCH 09/43] fix: nearest warps where the canvas extends past the
 source

---
 delayed_image/delayed_nodes.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/delayed_image/delayed_nodes.py b/delayed_image/delayed_nodes.py
index 3cd20bb..2549ba9 100644
--- a/delayed_image/delayed_nodes.py
+++ b/delayed_image/delayed_nodes.py
@@ -1871,8 +1871,8 @@ class DelayedWarp(DelayedImage):
                 if prewarp.ndim == 2:
                     final = np.full((out_h, out_w), fill, dtype=prewarp.dtype)
                     if valid.any():
-                        yy = yi[:, None]
-                        xx = xi[None, :]
+                        yy = yi.clip(0, in_h - 1)[:, None]
+                        xx = xi.clip(0, in_w - 1)[None, :]
                         final[valid] = prewarp[yy, xx][valid]
                 else:
                     num_chan = prewarp.shape[2]
@@ -1880,8 +1880,8 @@ class DelayedWarp(DelayedImage):
                         (out_h, out_w, num_chan), fill, dtype=prewarp.dtype
                     )
                     if valid.any():
-                        yy = yi[:, None]
-                        xx = xi[None, :]
+                        yy = yi.clip(0, in_h - 1)[:, None]
+                        xx = xi.clip(0, in_w - 1)[None, :]
                         sampled = prewarp[yy, xx]
                         final[valid, :] = sampled[valid, :]
                 if os.environ.get('DELAYED_IMAGE_WARP_DEBUG', ''):
-- 
2.43.0


From 51e998278088a763ccb8df90b0ee1bd573ec1ab8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:14 +0000
Subject: [PATCH 10/43] fix: nearest scaling onto an explicit canvas respects
 the transform

---
 delayed_image/delayed_nodes.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/delayed_image/delayed_nodes.py b/delayed_image/delayed_nodes.py
index 2549ba9..6a5ef13 100644
--- a/delayed_image/delayed_nodes.py
+++ b/delayed_image/delayed_nodes.py
@@ -1848,13 +1848,17 @@ class DelayedWarp(DelayedImage):
                 theta < 1e-9 and shearx < 1e-9 and sx > 0 and sy > 0
             )
             has_translation = abs(tx) > 1e-9 or abs(ty) > 1e-9
+            in_h, in_w = prewarp.shape[0:2]
+            # A pure scale is only a resize if the result fills the canvas
+            is_resize = not has_translation and (
+                abs(sx * in_w - dsize[0]) < 1 and abs(sy * in_h - dsize[1]) < 1
+            )
             if (
                 is_axis_aligned
-                and has_translation
+                and not is_resize
                 and not isinstance(border_value, str)
             ):
                 out_w, out_h = map(int, dsize)
-                in_h, in_w = prewarp.shape[0:2]
                 x_in = (np.arange(out_w) - tx) / sx
                 y_in = (np.arange(out_h) - ty) / sy
                 xi = np.floor(x_in).astype(int)
@@ -1940,7 +1944,8 @@ class DelayedWarp(DelayedImage):
             sx, sy = params['scale']
             tx, ty = params['offset']
             is_near_scale_only = (
-                theta < 1e-9
+                is_resize
+                and theta < 1e-9
                 and shearx < 1e-9
                 and abs(float(tx)) < 1e-9
                 and abs(float(ty)) < 1e-9
-- 
2.43.0


From bef14f8de56e22345dbec6268e2c87539071be7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:28 +0000
Subject: [PATCH 11/43] fix: nearest warps follow the transform when kwimage
 semantics are known

---
 delayed_image/delayed_nodes.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/delayed_image/delayed_nodes.py b/delayed_image/delayed_nodes.py
index 6a5ef13..c3ea841 100644
--- a/delayed_image/delayed_nodes.py
+++ b/delayed_image/delayed_nodes.py
@@ -1972,6 +1972,7 @@ class DelayedWarp(DelayedImage):
                 final = kwarray.atleast_nd(final, 3, front=False)
                 return final
 
+        if interpolation == 'nearest' and _kwimage_version() < (0, 12, 0):
             # Robustness for runtime convention mismatches: evaluate both
             # conventions and keep the better-scoring result.
             cand1 = kwimage.warp_affine(
-- 
2.43.0


From 7fe789ae0b32e1d53957fecd5f28ecb934defe09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:51 +0000
Subject: [PATCH 12/43] fix: integer, slice and unnamed channel selection

---
 delayed_image/delayed_nodes.py | 32 ++++++++++++++++++++++++--------
 1 file changed, 24 insertions(+), 8 deletions(-)

diff --git a/delayed_image/delayed_nodes.py b/delayed_image/delayed_nodes.py
index c3ea841..fcb804c 100644
--- a/delayed_image/delayed_nodes.py
+++ b/delayed_image/delayed_nodes.py
@@ -917,13 +917,11 @@ class DelayedChannelConcat(DelayedConcat, ImageOpsMixin):
             return _as_image_like(self)
         current_channels = self.channels
 
-        if isinstance(channels, list):
+        if isinstance(channels, (list, slice)):
             # Allows channel selection via integer indexes
             # TODO: this API needs to be tested and verified so it works
             # correctly for integers indexes and string channel names.
-            top_idx_mapping = channels
-            assert current_channels is not None
-            top_codes = current_channels.as_list()
+            top_idx_mapping = _rectify_chan_idxs(channels, self.num_channels)
             request_codes = None
         else:
             channels = FusedChannelSpec.coerce(channels)
@@ -946,10 +944,9 @@ class DelayedChannelConcat(DelayedConcat, ImageOpsMixin):
             ...
         elif missing_channel_policy == 'error':
             # do a quick check for missing channels outside of the core logic
-            assert request_codes is not None
             missing_channels = [
                 code
-                for idx, code in zip(top_idx_mapping, request_codes)
+                for idx, code in zip(top_idx_mapping, request_codes or [])
                 if idx is None
             ]
             if missing_channels:
@@ -1405,8 +1402,8 @@ class DelayedImage(DelayedArray, ImageOpsMixin):
             >>> assert len(new.parts) == 2
             >>> new._validate()
         """
-        if isinstance(channels, list):
-            top_idx_mapping = [int(x) for x in channels]
+        if isinstance(channels, (list, slice)):
+            top_idx_mapping = _rectify_chan_idxs(channels, self.num_channels)
         else:
             if channels is None and lazy:
                 return self
@@ -2718,6 +2715,7 @@ class DelayedCrop(DelayedImage):
             self.meta['dsize'] = (in_w, in_h)
 
         if chan_idxs is not None:
+            chan_idxs = _rectify_chan_idxs(chan_idxs, self.num_channels)
             current_channels = self.channels
             if current_channels is not None:
                 new_channels = current_channels[chan_idxs]
@@ -3378,6 +3376,24 @@ def _rectify_retain(remove, retain):
     return retain
 
 
+def _rectify_chan_idxs(
+    chan_idxs: Any, num_channels: int | None
+) -> list[int]:
+    """
+    Convert channel indexes given as an integer, a slice, or any iterable into
+    a list of non-negative indexes.
+    """
+    if isinstance(chan_idxs, slice):
+        if num_channels is None:
+            raise ValueError('cannot slice an unknown number of channels')
+        return list(range(num_channels)[chan_idxs])
+    if not ub.iterable(chan_idxs):
+        chan_idxs = [chan_idxs]
+    if num_channels is None:
+        return [int(idx) for idx in chan_idxs]
+    return [range(num_channels)[int(idx)] for idx in chan_idxs]
+
+
 class CoordinateCompatibilityError(ValueError):
     """
     Error when trying to perform operations on data in different coordinate
-- 
2.43.0


From a26ce8e5d2f5dc11521e06af7f26905b55dc0bcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:59 +0000
Subject: [PATCH 13/43] fix: 2D identity data is delivered with the announced
 channel dimension

---
 delayed_image/delayed_leafs.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/delayed_image/delayed_leafs.py b/delayed_image/delayed_leafs.py
index d98a0bc..3a8f3e3 100644
--- a/delayed_image/delayed_leafs.py
+++ b/delayed_image/delayed_leafs.py
@@ -528,4 +528,8 @@ class DelayedIdentity(DelayedImageLeaf):
         Returns:
             ArrayLike
         """
-        return self.data
+        data = self.data
+        if len(data.shape) == 2:
+            # The announced shape always has a channel dimension
+            data = data[:, :, None]
+        return data
-- 
2.43.0


From 05de603073e70e3f3fb32f0e9154643fd7580771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:38 +0000
Subject: [PATCH 14/43] fix: optimizing crops, overviews and dequantize that
 become a concat

---
 delayed_image/delayed_nodes.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/delayed_image/delayed_nodes.py b/delayed_image/delayed_nodes.py
index fcb804c..16a1f9b 100644
--- a/delayed_image/delayed_nodes.py
+++ b/delayed_image/delayed_nodes.py
@@ -2615,8 +2615,7 @@ class DelayedDequantize(DelayedImage):
             # Swap order so quantize is before the warp
             new = new._opt_dequant_before_other()
             new = new.optimize(ctx)
-
-        if isinstance2(new.subdata, DelayedChannelConcat):
+        elif isinstance2(new.subdata, DelayedChannelConcat):
             pushed = new._opt_push_under_concat()
             if pushed is not new:
                 new = pushed.optimize(ctx)
@@ -2798,8 +2797,7 @@ class DelayedCrop(DelayedImage):
         elif isinstance2(new.subdata, DelayedDequantize):
             new = new._opt_dequant_after_crop()
             new = new.optimize(ctx)
-
-        if isinstance2(new.subdata, DelayedChannelConcat):
+        elif isinstance2(new.subdata, DelayedChannelConcat):
             if isinstance2(new, DelayedCrop):
                 # We have to be careful if there we have band selection
                 chan_idxs = new.meta.get('chan_idxs', None)
@@ -3198,7 +3196,7 @@ class DelayedOverview(DelayedImage):
         elif isinstance2(new.subdata, DelayedDequantize):
             new = new._opt_dequant_after_overview()
             new = new.optimize(ctx)
-        if isinstance2(new.subdata, DelayedChannelConcat):
+        elif isinstance2(new.subdata, DelayedChannelConcat):
             pushed = new._opt_push_under_concat()
             if pushed is not new:
                 new = pushed.optimize(ctx)
-- 
2.43.0


From 566dc30a89ceb3143552d9fe25b1bece29f0e2e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:35 +0000
Subject: [PATCH 15/43] fix: warps with a reflection do not fail when antialias
 is on

---
 delayed_image/delayed_nodes.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/delayed_image/delayed_nodes.py b/delayed_image/delayed_nodes.py
index 16a1f9b..0273a53 100644
--- a/delayed_image/delayed_nodes.py
+++ b/delayed_image/delayed_nodes.py
@@ -1918,7 +1918,8 @@ class DelayedWarp(DelayedImage):
         elif bool(antialias):
             assert params is not None
             sx, sy = params['scale']
-            use_antialias = (sx < 1) or (sy < 1)
+            # Antialiasing is not implemented for reflections in kwimage
+            use_antialias = ((sx < 1) or (sy < 1)) and (sx > 0 and sy > 0)
         else:
             use_antialias = False
 
-- 
2.43.0


From 387359105d3ed31d5f00bd992f00f0e02aed7dc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:35 +0000
Subject: [PATCH 16/43] fix: absorbing an overview below an empty crop

---
 delayed_image/delayed_nodes.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/delayed_image/delayed_nodes.py b/delayed_image/delayed_nodes.py
index 0273a53..50e1be6 100644
--- a/delayed_image/delayed_nodes.py
+++ b/delayed_image/delayed_nodes.py
@@ -2348,6 +2348,9 @@ class DelayedWarp(DelayedImage):
                     print('Tail')
                     tail.print_graph()
                 modified_tail = tail._opt_warp_after_crop()
+                if modified_tail is tail:
+                    # The crop is empty, so there is nothing to gain
+                    return self
                 if DEBUG:
                     print('Modified Tail')
                     modified_tail.print_graph()
-- 
2.43.0


From c9bc1140aad0a4984f23dca4321ccc7377b08d8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:03 +0000
Subject: [PATCH 17/43] fix: simulated overviews of single band files

---
 delayed_image/delayed_nodes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/delayed_image/delayed_nodes.py b/delayed_image/delayed_nodes.py
index 50e1be6..c6a2a34 100644
--- a/delayed_image/delayed_nodes.py
+++ b/delayed_image/delayed_nodes.py
@@ -3165,7 +3165,7 @@ class DelayedOverview(DelayedImage):
             """
             )
         )
-        sub_final = np.asarray(sub_final)
+        sub_final = kwarray.atleast_nd(np.asarray(sub_final), 3)
         # Nearest sampling, which rounds up odd sizes like gdal overviews do
         step = 2**overview
         final = sub_final[::step, ::step]
-- 
2.43.0


From 88b0370b53f89ca2fa436b6ab26cefd695a75eb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:27 +0000
Subject: [PATCH 18/43] fix: single band files are delivered with the announced
 channel dimension

---
 delayed_image/lazy_loaders.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/delayed_image/lazy_loaders.py b/delayed_image/lazy_loaders.py
index bebed9d..f328c8b 100644
--- a/delayed_image/lazy_loaders.py
+++ b/delayed_image/lazy_loaders.py
@@ -1051,26 +1051,35 @@ class LazyGDalFrameFile(ub.NiceRepr):
         if nodata_method == 'auto':
             nodata_method = 'float'  # just use floats
         if not GDAL_FAST_PATH:
-            return self._compat_gdal_read(
+            imdata = self._compat_gdal_read(
                 ds=ds,
                 band_indices=band_indices,
                 gdalkw=gdalkw,
                 nodata_method=nodata_method,
             )
+            return self._ensure_hwc(imdata)
 
         try:
-            return self._dataset_read_as_array(
+            imdata = self._dataset_read_as_array(
                 band_indices=band_indices,
                 gdalkw=gdalkw,
                 nodata_method=nodata_method,
             )
         except Exception:
-            return self._compat_gdal_read(
+            imdata = self._compat_gdal_read(
                 ds=ds,
                 band_indices=band_indices,
                 gdalkw=gdalkw,
                 nodata_method=nodata_method,
             )
+        return self._ensure_hwc(imdata)
+
+    @staticmethod
+    def _ensure_hwc(imdata):
+        """
+        Gdal drops the channel dimension of single band reads
+        """
+        return imdata[:, :, None] if imdata.ndim == 2 else imdata
 
     def __array__(self):
         """
-- 
2.43.0


From 062c1761e4d183d40d34014cc047b392acedb897 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:24 +0000
Subject: [PATCH 19/43] fix: whole pixel shifts do not lose the last row and
 column

---
 delayed_image/delayed_nodes.py | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/delayed_image/delayed_nodes.py b/delayed_image/delayed_nodes.py
index c6a2a34..aa21f4b 100644
--- a/delayed_image/delayed_nodes.py
+++ b/delayed_image/delayed_nodes.py
@@ -1828,19 +1828,30 @@ class DelayedWarp(DelayedImage):
 
         dsize = _ensure_valid_dsize(dsize)
 
+        # Whole pixel shifts are copied exactly. Interpolating them would blend
+        # the last row and column with the border (i.e. lose them to nan)
+        matrix = np.asarray(transform)
+        offset = np.round(matrix[0:2, 2])
+        is_pixel_shift = not isinstance(prewarp, np.ma.MaskedArray) and bool(
+            (np.abs(matrix[0:2, 0:2] - np.eye(2)) < 1e-9).all()
+            and (np.abs(matrix[0:2, 2] - offset) < 1e-9).all()
+        )
+
         params = None
-        if interpolation == 'nearest' or bool(antialias):
+        if interpolation == 'nearest' or is_pixel_shift or bool(antialias):
             params = transform.decompose()
 
         # Deterministic nearest path for translated axis-aligned affines.
         # Pure positive scales use the imresize fastpath below, which is
         # substantially faster than the generic NumPy sampler.
-        if interpolation == 'nearest':
+        if interpolation == 'nearest' or is_pixel_shift:
             assert params is not None
             theta = abs(float(params.get('theta', 0)))
             shearx = abs(float(params.get('shearx', 0)))
             sx, sy = map(float, params['scale'])
             tx, ty = map(float, params.get('offset', (0, 0)))
+            if is_pixel_shift:
+                sx, sy, (tx, ty) = 1.0, 1.0, map(float, offset)
             is_axis_aligned = (
                 theta < 1e-9 and shearx < 1e-9 and sx > 0 and sy > 0
             )
@@ -1852,7 +1863,7 @@ class DelayedWarp(DelayedImage):
             )
             if (
                 is_axis_aligned
-                and not is_resize
+                and (is_pixel_shift or not is_resize)
                 and not isinstance(border_value, str)
             ):
                 out_w, out_h = map(int, dsize)
-- 
2.43.0


From aa3fb7e1030cb0c79eccad58a27fe8c0f3641c63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:41 +0000
Subject: [PATCH 20/43] fix: crops of padded images do not show cropped away
 pixels again

Pushing a crop below a whole pixel shift read a margin, which became visible
when the shift was fused with an outer padding.
---
 delayed_image/delayed_nodes.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/delayed_image/delayed_nodes.py b/delayed_image/delayed_nodes.py
index aa21f4b..89e9627 100644
--- a/delayed_image/delayed_nodes.py
+++ b/delayed_image/delayed_nodes.py
@@ -3038,6 +3038,21 @@ class DelayedCrop(DelayedImage):
             leaf_x1 = min(leaf_x1_q + padw, src_w)
             leaf_y1 = min(leaf_y1_q + padh, src_h)
 
+            is_pixel_shift = (
+                max(abs(sx - 1), abs(sy - 1)) < 1e-9
+                and max(abs(tx - round(tx)), abs(ty - round(ty))) < 1e-9
+            )
+            if is_pixel_shift:
+                # Nothing is interpolated, so do not read a margin. Fusing
+                # with an outer padding would make it visible.
+                leaf_x0 = max(root_x0 - round(tx), 0)
+                leaf_y0 = max(root_y0 - round(ty), 0)
+                leaf_x1 = min(root_x1 - round(tx), src_w)
+                leaf_y1 = min(root_y1 - round(ty), src_h)
+                if leaf_x0 >= leaf_x1 or leaf_y0 >= leaf_y1:
+                    # Only shows padding
+                    return self
+
             inner_slice = (slice(leaf_y0, leaf_y1), slice(leaf_x0, leaf_x1))
             outer_transform = kwimage.Affine.affine(
                 scale=(sx, sy),
-- 
2.43.0


From c3100fbfd4cfb6283d844de19beacdd9a185bf99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:14 +0000
Subject: [PATCH 21/43] fix: as_xarray delivers masked nodata as nan instead of
 as data

---
 delayed_image/delayed_nodes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/delayed_image/delayed_nodes.py b/delayed_image/delayed_nodes.py
index 89e9627..d1210a9 100644
--- a/delayed_image/delayed_nodes.py
+++ b/delayed_image/delayed_nodes.py
@@ -1647,7 +1647,7 @@ class DelayedAsXarray(DelayedImage):
         """
         import xarray as xr
 
-        subfinal = np.asarray(self.subdata._finalize())
+        subfinal = np.asanyarray(self.subdata._finalize())
         channels = self.subdata.channels
         coords = {}
         if channels is not None:
-- 
2.43.0


From d3bc67c0111b003afff5d22fee14c4d502fe4d86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:14 +0000
Subject: [PATCH 22/43] fix: simulated overviews keep masked nodata

---
 delayed_image/delayed_nodes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/delayed_image/delayed_nodes.py b/delayed_image/delayed_nodes.py
index d1210a9..12521f3 100644
--- a/delayed_image/delayed_nodes.py
+++ b/delayed_image/delayed_nodes.py
@@ -3191,7 +3191,7 @@ class DelayedOverview(DelayedImage):
             """
             )
         )
-        sub_final = kwarray.atleast_nd(np.asarray(sub_final), 3)
+        sub_final = kwarray.atleast_nd(np.asanyarray(sub_final), 3)
         # Nearest sampling, which rounds up odd sizes like gdal overviews do
         step = 2**overview
         final = sub_final[::step, ::step]
-- 
2.43.0


From 9f14863a038ffdbb4a446e9d1e332074f0139fda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:14 +0000
Subject: [PATCH 23/43] fix: concatenations keep masked nodata

---
 delayed_image/delayed_nodes.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/delayed_image/delayed_nodes.py b/delayed_image/delayed_nodes.py
index 12521f3..f1b1088 100644
--- a/delayed_image/delayed_nodes.py
+++ b/delayed_image/delayed_nodes.py
@@ -792,8 +792,12 @@ class DelayedChannelConcat(DelayedConcat, ImageOpsMixin):
         if len(stack) == 1:
             final = stack[0]
         else:
-            stack = [kwarray.atleast_nd(s, 3) for s in stack]
-            final = np.concatenate(stack, axis=2)
+            stack = [kwarray.atleast_nd(np.asanyarray(s), 3) for s in stack]
+            if any(isinstance(s, np.ma.MaskedArray) for s in stack):
+                # numpy.concatenate drops the masks
+                final = np.ma.concatenate(stack, axis=2)
+            else:
+                final = np.concatenate(stack, axis=2)
         return final
 
     def optimize(
-- 
2.43.0


From e12f8a5fccafa3924708920109627545f46ea130 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:23 +0000
Subject: [PATCH 24/43] fix: nearest warps and paddings keep masked nodata

Nearest warps dropped the mask, and paddings of masked float images lost
their border rows and columns to nan.
---
 delayed_image/delayed_nodes.py | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/delayed_image/delayed_nodes.py b/delayed_image/delayed_nodes.py
index f1b1088..bdcc1eb 100644
--- a/delayed_image/delayed_nodes.py
+++ b/delayed_image/delayed_nodes.py
@@ -1836,7 +1836,8 @@ class DelayedWarp(DelayedImage):
         # the last row and column with the border (i.e. lose them to nan)
         matrix = np.asarray(transform)
         offset = np.round(matrix[0:2, 2])
-        is_pixel_shift = not isinstance(prewarp, np.ma.MaskedArray) and bool(
+        is_masked = isinstance(prewarp, np.ma.MaskedArray)
+        is_pixel_shift = bool(
             (np.abs(matrix[0:2, 0:2] - np.eye(2)) < 1e-9).all()
             and (np.abs(matrix[0:2, 2] - offset) < 1e-9).all()
         )
@@ -1862,7 +1863,8 @@ class DelayedWarp(DelayedImage):
             has_translation = abs(tx) > 1e-9 or abs(ty) > 1e-9
             in_h, in_w = prewarp.shape[0:2]
             # A pure scale is only a resize if the result fills the canvas
-            is_resize = not has_translation and (
+            # (and resizing would drop a mask)
+            is_resize = not (has_translation or is_masked) and (
                 abs(sx * in_w - dsize[0]) < 1 and abs(sy * in_h - dsize[1]) < 1
             )
             if (
@@ -1884,17 +1886,23 @@ class DelayedWarp(DelayedImage):
                     if ub.iterable(border_value)
                     else border_value
                 )
+
+                def _canvas(shape):
+                    if is_masked and self.meta['border_value'] == 'auto':
+                        zeros = np.zeros(shape, dtype=prewarp.dtype)
+                        return np.ma.array(zeros, mask=True)
+                    canvas = np.full(shape, fill, dtype=prewarp.dtype)
+                    return np.ma.array(canvas) if is_masked else canvas
+
                 if prewarp.ndim == 2:
-                    final = np.full((out_h, out_w), fill, dtype=prewarp.dtype)
+                    final = _canvas((out_h, out_w))
                     if valid.any():
                         yy = yi.clip(0, in_h - 1)[:, None]
                         xx = xi.clip(0, in_w - 1)[None, :]
                         final[valid] = prewarp[yy, xx][valid]
                 else:
                     num_chan = prewarp.shape[2]
-                    final = np.full(
-                        (out_h, out_w, num_chan), fill, dtype=prewarp.dtype
-                    )
+                    final = _canvas((out_h, out_w, num_chan))
                     if valid.any():
                         yy = yi.clip(0, in_h - 1)[:, None]
                         xx = xi.clip(0, in_w - 1)[None, :]
-- 
2.43.0


From 6fab7be7c68527be171fe4e0c911e4d4e7003df2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:23 +0000
Subject: [PATCH 25/43] fix: read multi band files of 8 bit signed and 64 bit
 integers

---
 delayed_image/lazy_loaders.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/delayed_image/lazy_loaders.py b/delayed_image/lazy_loaders.py
index f328c8b..92dff85 100644
--- a/delayed_image/lazy_loaders.py
+++ b/delayed_image/lazy_loaders.py
@@ -115,6 +115,9 @@ _GDAL_DTYPE_LUT = {
     9: complex_,
     10: np.complex64,
     11: np.complex128,
+    12: np.uint64,
+    13: np.int64,
+    14: np.int8,
 }
 
 
-- 
2.43.0


From 254a92279c2e99b81ccfce08cfe5bfa8cdd595c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:52 +0000
Subject: [PATCH 26/43] fix: quantizing low precision floats to 32 bit types
 overflowed

---
 delayed_image/helpers.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/delayed_image/helpers.py b/delayed_image/helpers.py
index 219d326..505eb5b 100644
--- a/delayed_image/helpers.py
+++ b/delayed_image/helpers.py
@@ -565,8 +565,11 @@ def quantize_float01(imdata, old_min=0, old_max=1, quantize_dtype=np.int16):
 
     if imdata is not None:
         invalid_mask = np.isnan(imdata)
+        # Low precision floats cannot represent the range of large quantized
+        # types. Rescaling with them can overflow.
+        rescale_dtype = np.result_type(imdata.dtype, quantize_dtype, np.float32)
         new_imdata = (
-            imdata.clip(old_min, old_max) - old_min
+            imdata.astype(rescale_dtype).clip(old_min, old_max) - old_min
         ) * quant_factor + quantize_min
         new_imdata = new_imdata.astype(quantize_dtype)
         new_imdata[invalid_mask] = quantize_nan
-- 
2.43.0


From 548c49a6cfcad568d75c800b075807f10fbba8e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:53 +0000
Subject: [PATCH 27/43] fix: negative starts and indexes of lazy file readers

---
 delayed_image/lazy_loaders.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/delayed_image/lazy_loaders.py b/delayed_image/lazy_loaders.py
index 92dff85..8ca71ed 100644
--- a/delayed_image/lazy_loaders.py
+++ b/delayed_image/lazy_loaders.py
@@ -1098,14 +1098,13 @@ def _rectify_slice_dim(part, D):
     if part is None:
         return slice(0, D)
     elif isinstance(part, slice):
-        start = 0 if part.start is None else max(0, part.start)
-        stop = D if part.stop is None else min(D, part.stop)
-        if stop < 0:
-            stop = D + stop
         assert part.step is None
-        part = slice(start, stop)
+        start, stop, _ = part.indices(D)
+        part = slice(start, max(start, stop))
         return part
     elif isinstance(part, int):
+        if part < 0:
+            part = D + part
         part = slice(part, part + 1)
     elif isinstance(part, list):
         part = part
@@ -1136,7 +1135,7 @@ def _validate_nonzero_data(file):
         # Check if the center pixels have data, look at more data if needbe
         sizes = [8, 512, 2048, 5000]
         for d in sizes:
-            index = tuple(slice(c - d, c + d) for c in center)
+            index = tuple(slice(max(0, c - d), c + d) for c in center)
             partial_data = file[index]
             total = partial_data.sum()
             if total > 0:
-- 
2.43.0


From 523dafc7f7417e46b86c09ef22395887418141b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:30 +0000
Subject: [PATCH 28/43] fix: squash_nans scaled the returned warps of parts
 that are not nan

---
 delayed_image/delayed_nodes.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/delayed_image/delayed_nodes.py b/delayed_image/delayed_nodes.py
index bdcc1eb..04875a9 100644
--- a/delayed_image/delayed_nodes.py
+++ b/delayed_image/delayed_nodes.py
@@ -1604,14 +1604,14 @@ class DelayedImage(DelayedArray, ImageOpsMixin):
         undo_warp = kwimage.Affine.coerce(undo_components)
         undone_part = part.warp(undo_warp).optimize()
         if squash_nans:
-            if return_warp:
-                # hack the return undo_warp
-                assert undone_part.dsize is not None
-                w, h = undone_part.dsize
-                assert w is not None
-                assert h is not None
-                undo_warp = kwimage.Affine.scale((1 / w, 1 / h)) @ undo_warp
             if isinstance2(undone_part, delayed_leafs.DelayedNans):
+                if return_warp:
+                    # hack the return undo_warp
+                    assert undone_part.dsize is not None
+                    w, h = undone_part.dsize
+                    assert w is not None
+                    assert h is not None
+                    undo_warp = kwimage.Affine.scale((1 / w, 1 / h)) @ undo_warp
                 undone_part = undone_part[0:1, 0:1].optimize()
         if return_warp:
             return undone_part, undo_warp
-- 
2.43.0


From bd498a03f4edfdfa15089d838425fdc85e27cee9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:16 +0000
Subject: [PATCH 29/43] fix: border values per channel were mixed up when
 optimizing

Selecting channels of a warp, or warping a concatenation, kept the border values
of the other channels, and nearest warps used the first for all channels.
---
 delayed_image/delayed_nodes.py | 55 ++++++++++++++++++++++++++++++----
 1 file changed, 49 insertions(+), 6 deletions(-)

diff --git a/delayed_image/delayed_nodes.py b/delayed_image/delayed_nodes.py
index 04875a9..d7e0a54 100644
--- a/delayed_image/delayed_nodes.py
+++ b/delayed_image/delayed_nodes.py
@@ -1055,7 +1055,23 @@ class DelayedChannelConcat(DelayedConcat, ImageOpsMixin):
     def _push_operation_under(self, op, kwargs):
         # Note: we can't do this with a crop that has band selection
         # But spatial operations should be ok.
-        new = self.__class__([op(p, **kwargs) for p in self.parts])
+        part_kwargs = [kwargs] * len(self.parts)
+        if 'border_value' in kwargs:
+            # Border values given per channel are divided between the parts
+            part_kwargs = []
+            offset = 0
+            for p in self.parts:
+                num = p.num_channels or 0
+                border_value = _select_border_values(
+                    kwargs['border_value'],
+                    range(offset, offset + num),
+                    self.num_channels,
+                )
+                part_kwargs.append({**kwargs, 'border_value': border_value})
+                offset += num
+        new = self.__class__(
+            [op(p, **kw) for p, kw in zip(self.parts, part_kwargs)]
+        )
         if TRACE_OPTIMIZE:
             new._opt_logs.append(f'_push_operation_under {op}')
         return new
@@ -1881,11 +1897,11 @@ class DelayedWarp(DelayedImage):
                 valid_y = (yi >= 0) & (yi < in_h)
                 valid = valid_y[:, None] & valid_x[None, :]
 
-                fill = (
-                    border_value[0]
-                    if ub.iterable(border_value)
-                    else border_value
-                )
+                fill = border_value
+                if ub.iterable(fill) and (
+                    prewarp.ndim == 2 or len(fill) != prewarp.shape[2]
+                ):
+                    fill = fill[0]
 
                 def _canvas(shape):
                     if is_masked and self.meta['border_value'] == 'auto':
@@ -3088,6 +3104,18 @@ class DelayedCrop(DelayedImage):
         warp_meta.update(
             ub.dict_isect(self.subdata.meta, self.subdata._algo_keys)
         )
+        if outer_chan_idxs is not None:
+            warp_meta['border_value'] = _select_border_values(
+                warp_meta['border_value'],
+                outer_chan_idxs,
+                self.subdata.num_channels,
+            )
+            if (
+                isinstance(warp_meta['border_value'], tuple)
+                and len(warp_meta['border_value']) > 4
+            ):
+                # Cannot warp that many different border values at once
+                return self
 
         new_inner = self.subdata.subdata.crop(inner_slice, outer_chan_idxs)
         new_outer = new_inner.warp(outer_transform, **warp_meta)
@@ -3434,6 +3462,21 @@ def _rectify_chan_idxs(
     return [range(num_channels)[int(idx)] for idx in chan_idxs]
 
 
+def _select_border_values(
+    border_value: Any, chan_idxs: IterableABC[int], num_channels: int | None
+) -> Any:
+    """
+    The part of a border value given per channel that belongs to a selection of
+    the channels. Any other border value applies to every channel.
+    """
+    if isinstance(border_value, str) or not ub.iterable(border_value):
+        return border_value
+    border_values = list(cast(IterableABC, border_value))
+    if len(border_values) != num_channels:
+        return border_value
+    return tuple(border_values[idx] for idx in chan_idxs)
+
+
 class CoordinateCompatibilityError(ValueError):
     """
     Error when trying to perform operations on data in different coordinate
-- 
2.43.0


From 9a2361c77a74b61d1816759e52858b46bb5f3f76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:16 +0000
Subject: [PATCH 30/43] fix: cropping cubic and lanczos warps mixed the border
 into the crop

The region read for a crop of a warp had a margin for linear interpolation only.
---
 delayed_image/delayed_nodes.py | 28 ++++++++++++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/delayed_image/delayed_nodes.py b/delayed_image/delayed_nodes.py
index d7e0a54..f97186e 100644
--- a/delayed_image/delayed_nodes.py
+++ b/delayed_image/delayed_nodes.py
@@ -3022,6 +3022,7 @@ class DelayedCrop(DelayedImage):
         sx, sy = map(float, params['scale'])
         tx, ty = map(float, params.get('offset', (0, 0)))
         is_axis_aligned = theta < 1e-9 and shearx < 1e-9 and sx > 0 and sy > 0
+        is_pixel_shift = False
         if is_axis_aligned:
             src_w, src_h = self.subdata.subdata.dsize
             assert src_w is not None
@@ -3100,6 +3101,21 @@ class DelayedCrop(DelayedImage):
                 outer_region, inner_transform, origin_convention='corner'
             )
 
+        # The margin read above is enough to interpolate between neighbors, but
+        # some interpolations use pixels from further away.
+        margin = _interpolation_margin(self.subdata.meta['interpolation'])
+        if margin and not is_pixel_shift:
+            sl_y, sl_x = inner_slice
+            y0 = max(sl_y.start - margin, 0)
+            x0 = max(sl_x.start - margin, 0)
+            outer_transform = outer_transform @ kwimage.Affine.translate(
+                (x0 - sl_x.start, y0 - sl_y.start)
+            )
+            inner_slice = (
+                slice(y0, sl_y.stop + margin),
+                slice(x0, sl_x.stop + margin),
+            )
+
         warp_meta = ub.dict_isect(self.meta, {'dsize'})
         warp_meta.update(
             ub.dict_isect(self.subdata.meta, self.subdata._algo_keys)
@@ -3462,6 +3478,18 @@ def _rectify_chan_idxs(
     return [range(num_channels)[int(idx)] for idx in chan_idxs]
 
 
+def _interpolation_margin(interpolation: str | int) -> int:
+    """
+    Number of pixels an interpolation uses beyond the direct neighbors.
+    """
+    # Also handle the integer codes of OpenCV
+    if interpolation in {'cubic', 2}:
+        return 1
+    elif interpolation in {'lanczos', 'lanczos4', 4}:
+        return 3
+    return 0
+
+
 def _select_border_values(
     border_value: Any, chan_idxs: IterableABC[int], num_channels: int | None
 ) -> Any:
-- 
2.43.0


From 0d2489fdaa6a72067c945840f6478c21079e59f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:03 +0000
Subject: [PATCH 31/43] fix: optimizing the overview of a crop of a warp
 interpolated linearly

The correction that this may need resamples with the parameters of the warp, so
that nearest warps deliver values of the source only.
---
 delayed_image/delayed_nodes.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/delayed_image/delayed_nodes.py b/delayed_image/delayed_nodes.py
index f97186e..fe24c73 100644
--- a/delayed_image/delayed_nodes.py
+++ b/delayed_image/delayed_nodes.py
@@ -3375,7 +3375,20 @@ class DelayedOverview(DelayedImage):
 
         if not np.all(np.isclose(np.eye(3), new_outer_warp)):
             # we might have to apply an additional warp at the end.
-            new = new.warp(new_outer_warp, dsize=self.meta['dsize'])
+            inner = self.subdata.subdata
+            warp_meta = {}
+            if isinstance2(inner, DelayedWarp):
+                # Resample again in the way asked for
+                warp_meta = ub.dict_isect(inner.meta, inner._algo_keys)
+                if chan_idxs is not None:
+                    warp_meta['border_value'] = _select_border_values(
+                        warp_meta['border_value'],
+                        chan_idxs,
+                        inner.num_channels,
+                    )
+            new = new.warp(
+                new_outer_warp, dsize=self.meta['dsize'], **warp_meta
+            )
         if TRACE_OPTIMIZE:
             new._opt_logs.append('_opt_crop_after_overview')
         return new
-- 
2.43.0


From c99226bc501731438ce32a951078b8aa7d90905a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:44 +0000
Subject: [PATCH 32/43] fix: nearest warps by fractions of a pixel shifted the
 image by a whole pixel

Sample at the centers of the delivered pixels, as all other warps do.
---
 delayed_image/delayed_nodes.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/delayed_image/delayed_nodes.py b/delayed_image/delayed_nodes.py
index fe24c73..37bd041 100644
--- a/delayed_image/delayed_nodes.py
+++ b/delayed_image/delayed_nodes.py
@@ -1889,8 +1889,8 @@ class DelayedWarp(DelayedImage):
                 and not isinstance(border_value, str)
             ):
                 out_w, out_h = map(int, dsize)
-                x_in = (np.arange(out_w) - tx) / sx
-                y_in = (np.arange(out_h) - ty) / sy
+                x_in = (np.arange(out_w) + 0.5 - tx) / sx
+                y_in = (np.arange(out_h) + 0.5 - ty) / sy
                 xi = np.floor(x_in).astype(int)
                 yi = np.floor(y_in).astype(int)
                 valid_x = (xi >= 0) & (xi < in_w)
-- 
2.43.0


From 605e18b0d7f00ee990399f8d09066d122c02b065 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:04 +0000
Subject: [PATCH 33/43] fix: concatenations of files that are not read yet kept
 an unknown number of channels

Negative channel indexes of such a concatenation selected wrong channels,
because the number of channels was never updated once it was known.
---
 delayed_image/delayed_nodes.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/delayed_image/delayed_nodes.py b/delayed_image/delayed_nodes.py
index 37bd041..d565497 100644
--- a/delayed_image/delayed_nodes.py
+++ b/delayed_image/delayed_nodes.py
@@ -747,6 +747,22 @@ class DelayedChannelConcat(DelayedConcat, ImageOpsMixin):
             else:
                 raise
 
+    def prepare(self) -> DelayedChannelConcat:
+        """
+        Populates metadata that was unknown when the node was constructed.
+
+        Returns:
+            DelayedChannelConcat
+        """
+        super().prepare()
+        if self.dsize is None and self.parts:
+            self.dsize = self.parts[0].dsize
+        if self.num_channels is None:
+            counts = [comp.num_channels for comp in self.parts]
+            if all(count is not None for count in counts):
+                self.num_channels = sum(counts)
+        return self
+
     def __nice__(self) -> str:
         """
         Returns:
-- 
2.43.0


From 8eea0f596dc851fddf1dbde590522285a5b5afb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:43 +0000
Subject: [PATCH 34/43] fix: warps of masked images without masked pixels
 failed

The mask of such images may be numpy.ma.nomask (concatenate shrinks it), which
the warp cannot transform, and the default fill value of masked integers does
not fit into small types.
---
 delayed_image/delayed_nodes.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/delayed_image/delayed_nodes.py b/delayed_image/delayed_nodes.py
index d565497..046fb3c 100644
--- a/delayed_image/delayed_nodes.py
+++ b/delayed_image/delayed_nodes.py
@@ -1821,6 +1821,13 @@ class DelayedWarp(DelayedImage):
 
         prewarp = self.subdata._finalize()
         prewarp = np.asanyarray(prewarp)
+        if (
+            isinstance(prewarp, np.ma.MaskedArray)
+            and np.ma.getmask(prewarp) is np.ma.nomask
+        ):
+            # The warp needs one mask value per pixel
+            mask = np.ma.getmaskarray(prewarp)
+            prewarp = np.ma.array(np.ma.getdata(prewarp), mask=mask)
 
         # TODO: we could configure this, but forcing nans on floats seems like
         # a pretty nice default border behavior. It would be even nicer to have
@@ -1834,6 +1841,10 @@ class DelayedWarp(DelayedImage):
             else:
                 if isinstance(prewarp, np.ma.MaskedArray):
                     border_value = int(prewarp.fill_value)
+                    if prewarp.dtype.kind in 'iu':
+                        # (the default does not fit into small integers)
+                        max_value = np.iinfo(prewarp.dtype).max
+                        border_value = min(border_value, int(max_value))
                 else:
                     border_value = 0
         else:
-- 
2.43.0


From b216d7b5737a0ede8050f5b1440183ea57b5caf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:00 +0000
Subject: [PATCH 35/43] fix: warping an empty part of a masked image delivered
 values that are not masked

---
 delayed_image/delayed_nodes.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/delayed_image/delayed_nodes.py b/delayed_image/delayed_nodes.py
index 046fb3c..fd2b0d4 100644
--- a/delayed_image/delayed_nodes.py
+++ b/delayed_image/delayed_nodes.py
@@ -1875,6 +1875,18 @@ class DelayedWarp(DelayedImage):
 
         dsize = _ensure_valid_dsize(dsize)
 
+        if (
+            isinstance(prewarp, np.ma.MaskedArray)
+            and prewarp.size == 0
+            and self.meta['border_value'] == 'auto'
+            and dsize is not None
+        ):
+            # There is nothing to show, and no mask to warp
+            out_shape = (dsize[1], dsize[0], num_chan)
+            return np.ma.array(
+                np.zeros(out_shape, dtype=prewarp.dtype), mask=True
+            )
+
         # Whole pixel shifts are copied exactly. Interpolating them would blend
         # the last row and column with the border (i.e. lose them to nan)
         matrix = np.asarray(transform)
-- 
2.43.0


From 8e90b6027c7bca9d490b60e219c1eb82cce69543 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:00 +0000
Subject: [PATCH 36/43] fix: optimized parts without data ignored a
 nodata_method given to finalize

---
 delayed_image/delayed_leafs.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/delayed_image/delayed_leafs.py b/delayed_image/delayed_leafs.py
index 3a8f3e3..59b4ae3 100644
--- a/delayed_image/delayed_leafs.py
+++ b/delayed_image/delayed_leafs.py
@@ -429,7 +429,9 @@ class DelayedNans(DelayedImageLeaf):
         new_width = box.width.ravel()[0]
         new_height = box.height.ravel()[0]
         new_dsize = (new_width, new_height)
-        new = self.__class__(new_dsize, channels=channels, **self._kwargs)
+        # (the meta may have been modified since construction)
+        kwargs = {k: self.meta[k] for k in self._kwargs}
+        new = self.__class__(new_dsize, channels=channels, **kwargs)
         if TRACE_OPTIMIZE:
             new._opt_logs.append('Nans._optimized_crop')
         return new
@@ -443,7 +445,8 @@ class DelayedNans(DelayedImageLeaf):
         channels = self.channels
         if channels is None:
             channels = self.num_channels
-        new = self.__class__(dsize, channels=channels, **self._kwargs)
+        kwargs = {k: self.meta[k] for k in self._kwargs}
+        new = self.__class__(dsize, channels=channels, **kwargs)
         if TRACE_OPTIMIZE:
             new._opt_logs.append('Nans._optimized_warp')
         return new
-- 
2.43.0


From 79ea4279e5f00e56193e044ba78a105a8377e4f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:45 +0000
Subject: [PATCH 37/43] fix: shrinking one axis and mirroring the other read
 overviews of a too low resolution

---
 delayed_image/delayed_nodes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/delayed_image/delayed_nodes.py b/delayed_image/delayed_nodes.py
index fd2b0d4..dcff800 100644
--- a/delayed_image/delayed_nodes.py
+++ b/delayed_image/delayed_nodes.py
@@ -2562,7 +2562,7 @@ class DelayedWarp(DelayedImage):
         # Check if there is a strict downsampling component
         transform = self.meta['transform']
         params = transform.decompose()
-        sx, sy = params['scale']
+        sx, sy = np.abs(params['scale'])  # reflections have negative scales
         if sx > 0.5 or sy > 0.5:
             return self
 
-- 
2.43.0


From 2372e13649c1d582c460a762f013bd3ce6de548e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:45 +0000
Subject: [PATCH 38/43] fix: shrinking an enlarged image read overviews of a
 too low resolution

---
 delayed_image/delayed_nodes.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/delayed_image/delayed_nodes.py b/delayed_image/delayed_nodes.py
index dcff800..2ef71f5 100644
--- a/delayed_image/delayed_nodes.py
+++ b/delayed_image/delayed_nodes.py
@@ -2559,6 +2559,14 @@ class DelayedWarp(DelayedImage):
         if not num_overviews:
             return self
 
+        # Overviews of an enlarging warp would have a lower resolution than
+        # what this warp needs.
+        while isinstance2(inner_data, (DelayedCrop, DelayedDequantize)):
+            inner_data = inner_data.subdata
+        if isinstance2(inner_data, DelayedWarp):
+            return self
+        inner_data = self.subdata
+
         # Check if there is a strict downsampling component
         transform = self.meta['transform']
         params = transform.decompose()
-- 
2.43.0


From c507bf81edd829cb73ca11e6fff53473c722a2ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:34 +0000
Subject: [PATCH 39/43] fix: images over files given with one side of their
 size kept the other side unknown after reading it

---
 delayed_image/delayed_nodes.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/delayed_image/delayed_nodes.py b/delayed_image/delayed_nodes.py
index 2ef71f5..e37d5dd 100644
--- a/delayed_image/delayed_nodes.py
+++ b/delayed_image/delayed_nodes.py
@@ -755,7 +755,8 @@ class DelayedChannelConcat(DelayedConcat, ImageOpsMixin):
             DelayedChannelConcat
         """
         super().prepare()
-        if self.dsize is None and self.parts:
+        if self.parts and (
+                self.dsize is None or any(d is None for d in self.dsize)):
             self.dsize = self.parts[0].dsize
         if self.num_channels is None:
             counts = [comp.num_channels for comp in self.parts]
@@ -1309,7 +1310,8 @@ class DelayedImage(DelayedArray, ImageOpsMixin):
         """
         # return self.meta.get('dsize', None)
         dsize = self.meta.get('dsize', None)
-        if dsize is None and self.subdata is not None:
+        if self.subdata is not None and (
+                dsize is None or any(d is None for d in dsize)):
             dsize = self.subdata.dsize
         return dsize
 
-- 
2.43.0


From b0737b71828a1e77ec4fde5ff453e28871b01cfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:51 +0000
Subject: [PATCH 40/43] fix: warps with the integer code of nearest
 interpolation blurred and moved pixels

---
 delayed_image/delayed_nodes.py | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/delayed_image/delayed_nodes.py b/delayed_image/delayed_nodes.py
index e37d5dd..0c47c4e 100644
--- a/delayed_image/delayed_nodes.py
+++ b/delayed_image/delayed_nodes.py
@@ -5,6 +5,7 @@ Intermediate operations
 from __future__ import annotations
 
 import copy
+import numbers
 import os
 import re
 import warnings
@@ -1818,7 +1819,7 @@ class DelayedWarp(DelayedImage):
             dsize = None
         antialias = self.meta['antialias']
         transform = self.meta['transform']
-        interpolation = self.meta['interpolation']
+        interpolation = _interpolation_name(self.meta['interpolation'])
         backend = self.meta['backend']
 
         prewarp = self.subdata._finalize()
@@ -2880,7 +2881,7 @@ class DelayedCrop(DelayedImage):
             # rewrite for non-nearest warps where it recovers much smaller
             # intermediates without tripping the nearest off-by-one cases.
             interp = new.subdata.meta.get('interpolation', None)
-            if interp != 'nearest':
+            if _interpolation_name(interp) != 'nearest':
                 pushed = new._opt_warp_after_crop()
                 if pushed is not new:
                     new = pushed.optimize(ctx)
@@ -3540,14 +3541,25 @@ def _rectify_chan_idxs(
     return [range(num_channels)[int(idx)] for idx in chan_idxs]
 
 
+def _interpolation_name(interpolation: Any) -> Any:
+    """
+    The name of an interpolation that is given as an integer code of OpenCV.
+    Any other interpolation is returned as it is.
+    """
+    if isinstance(interpolation, numbers.Integral):
+        names = {0: 'nearest', 1: 'linear', 2: 'cubic', 3: 'area', 4: 'lanczos'}
+        return names.get(int(interpolation), interpolation)
+    return interpolation
+
+
 def _interpolation_margin(interpolation: str | int) -> int:
     """
     Number of pixels an interpolation uses beyond the direct neighbors.
     """
-    # Also handle the integer codes of OpenCV
-    if interpolation in {'cubic', 2}:
+    interpolation = _interpolation_name(interpolation)
+    if interpolation == 'cubic':
         return 1
-    elif interpolation in {'lanczos', 'lanczos4', 4}:
+    elif interpolation in {'lanczos', 'lanczos4'}:
         return 3
     return 0
 
-- 
2.43.0


From e12f64698d553947aaa0b8035dbd69918740926e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:53 +0000
Subject: [PATCH 41/43] fix: keep the border value of a warp that is replaced
 by an overview

A warp that shrinks by exactly a power of two and whose canvas is larger
than the stored overview was optimized to a padded crop of that overview,
which filled the border with the default and not with the border_value of
the warp.
---
 delayed_image/delayed_nodes.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/delayed_image/delayed_nodes.py b/delayed_image/delayed_nodes.py
index 0c47c4e..a1f0b5b 100644
--- a/delayed_image/delayed_nodes.py
+++ b/delayed_image/delayed_nodes.py
@@ -2596,7 +2596,11 @@ class DelayedWarp(DelayedImage):
         new_transform = residual_transform
         dsize = self.meta['dsize']
         overview = inner_data.get_overview(num_downs)
-        if new_transform.isclose_identity():
+        # A crop can only pad with the default border value
+        can_crop = self.meta['border_value'] == 'auto' or (
+            dsize[0] <= overview.dsize[0] and dsize[1] <= overview.dsize[1]
+        )
+        if can_crop and new_transform.isclose_identity():
             new = overview
             if new.dsize != dsize:
                 # The warp must have had an implicit crop
-- 
2.43.0


From e117c28ac580c31cd259691c7a5431f968a256e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:27 +0000
Subject: [PATCH 42/43] fix: overviews of parts of a canvas outside of the
 image showed pixels of the image

---
 delayed_image/delayed_nodes.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/delayed_image/delayed_nodes.py b/delayed_image/delayed_nodes.py
index a1f0b5b..ae84ff4 100644
--- a/delayed_image/delayed_nodes.py
+++ b/delayed_image/delayed_nodes.py
@@ -3328,8 +3328,10 @@ class DelayedOverview(DelayedImage):
         if new.meta['overview'] == 0:
             new = new.subdata
         elif isinstance2(new.subdata, DelayedCrop):
-            new = new._opt_crop_after_overview()
-            new = new.optimize(ctx)
+            if 0 not in (new.subdata.dsize or ()):
+                # An empty crop would contain pixels after the overview
+                new = new._opt_crop_after_overview()
+                new = new.optimize(ctx)
         elif isinstance2(new.subdata, DelayedWarp):
             new = new._opt_warp_after_overview()
             new = new.optimize(ctx)
-- 
2.43.0


From 3a574884b8137db7c30eae140f1b280128c12f23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:00:57 +0000
Subject: [PATCH 43/43] fix: select channels by name after an index was
 selected repeatedly

The position of a name was looked up in the set of names, which does not
count repetitions, and other channels were delivered.
---
 delayed_image/delayed_nodes.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/delayed_image/delayed_nodes.py b/delayed_image/delayed_nodes.py
index ae84ff4..27c7d73 100644
--- a/delayed_image/delayed_nodes.py
+++ b/delayed_image/delayed_nodes.py
@@ -953,12 +953,13 @@ class DelayedChannelConcat(DelayedConcat, ImageOpsMixin):
             assert current_channels is not None
             # Compute subindex integer mapping
             request_codes = channels.as_list()
-            top_codes = current_channels.as_oset()
+            # (an index may be selected repeatedly)
+            top_codes = current_channels.as_list()
             top_idx_mapping = []
             for code in request_codes:
                 try:
                     top_idx_mapping.append(top_codes.index(code))
-                except KeyError:
+                except ValueError:
                     top_idx_mapping.append(None)
 
         if missing_channel_policy == 'return_nan':
@@ -1457,12 +1458,13 @@ class DelayedImage(DelayedArray, ImageOpsMixin):
                 return self
             # Computer subindex integer mapping
             request_codes = channels.as_list()
-            top_codes = current_channels.as_oset()
+            # (an index may be selected repeatedly)
+            top_codes = current_channels.as_list()
             try:
                 top_idx_mapping = [
                     top_codes.index(code) for code in request_codes
                 ]
-            except KeyError:
+            except ValueError:
                 # If a requested channel doesn't exist we break this node up
                 # into a concat node so we can use its nan handing logic
                 # This should be easy to optimize if necessary.
-- 
2.43.0

