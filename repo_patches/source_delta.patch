From d050da6d9911b53112c4ee70fba713023e1fc684 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:49 +0000
Subject: [PATCH 01/93] fix: vertex_coords computes the last row of vertices

---
 karta/raster/grid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/karta/raster/grid.py b/karta/raster/grid.py
index ea5ba91..2d7fdb3 100644
--- a/karta/raster/grid.py
+++ b/karta/raster/grid.py
@@ -314,7 +314,7 @@ class RegularGrid(Grid):
         xcoords = np.empty((ny+1, nx+1))
         ycoords = np.empty((ny+1, nx+1))
         icol = np.arange(0, self.size[1]+1)
-        for i in range(self.size[0]):
+        for i in range(self.size[0]+1):
             xcoords[i,:] = t[0] + icol*t[2] + i*t[4]
             ycoords[i,:] = (t[1] + i*t[3] + icol*t[5])
         return xcoords, ycoords
-- 
2.43.0


From 33581d2b8f07373af32566d5f03039759b7fd5ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:49 +0000
Subject: [PATCH 02/93] fix: extent and bbox of skewed grids enclose every
 corner

---
 karta/raster/grid.py | 18 +++++++-----------
 1 file changed, 7 insertions(+), 11 deletions(-)

diff --git a/karta/raster/grid.py b/karta/raster/grid.py
index 2d7fdb3..385b4b0 100644
--- a/karta/raster/grid.py
+++ b/karta/raster/grid.py
@@ -362,19 +362,15 @@ class RegularGrid(Grid):
         dx, dy = self._transform[2:4]
         sx, sy = self._transform[4:]
 
-        sgn = lambda a: 0 if a==0 else a/abs(a)
-        if sgn(dx) == sgn(sx):
-            x1 = x0 + dx*(nx+n) + sx*(ny+n)
-        else:
-            x1 = x0 + dx*(nx+n) - sx*(ny+n)
-
-        if sgn(dy) == sgn(sy):
-            y1 = y0 + dy*(ny+n) + sy*(nx+n)
-        else:
-            y1 = y0 + dy*(ny+n) - sy*(nx+n)
+        xcorners = [x0, x0 + dx*(nx+n), x0 + sx*(ny+n),
+                    x0 + dx*(nx+n) + sx*(ny+n)]
+        ycorners = [y0, y0 + dy*(ny+n), y0 + sy*(nx+n),
+                    y0 + dy*(ny+n) + sy*(nx+n)]
+        x0, x1 = min(xcorners), max(xcorners)
+        y0, y1 = min(ycorners), max(ycorners)
 
         if crs is None or (crs == self.crs):
-            (a, b, c, d) = min(x0, x1), max(x0, x1), min(y0, y1), max(y0, y1)
+            (a, b, c, d) = x0, x1, y0, y1
         else:
             xg0, yg0 = self.crs.transform(crs, x0, y0)
             xg1, yg1 = self.crs.transform(crs, x0, y1)
-- 
2.43.0


From be02d7a42c69b2b655dddcec725ac916edaf9edf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:49 +0000
Subject: [PATCH 03/93] fix: data_extent for any origin, resolution sign, skew
 and band count

---
 karta/raster/grid.py | 25 +++++++++++--------------
 1 file changed, 11 insertions(+), 14 deletions(-)

diff --git a/karta/raster/grid.py b/karta/raster/grid.py
index 385b4b0..8ce552b 100644
--- a/karta/raster/grid.py
+++ b/karta/raster/grid.py
@@ -409,20 +409,17 @@ class RegularGrid(Grid):
         ny, nx = self.size
 
         # Reading a row is fast, so process from bottom to top
-        bx = x0
-        by = y0 + ny*dy
-        tx = x0
-        ty = y0
-        lx = x0 + nx*dx
-        ly = y0
-        rx = y0
-        ry = y0
+        bx = tx = x0
+        ly = ry = y0
+        by = lx = np.inf
+        ty = rx = -np.inf
 
         jvec = np.arange(nx)
 
         for i, row in enumerate(self[:,:]):
-            x = (x0 + jvec*dx + i*sx)[isdata(row.squeeze())]
-            y = (y0 + i*dy + jvec*sy)[isdata(row.squeeze())]
+            rowmask = np.all(isdata(row), axis=-1)
+            x = (x0 + jvec*dx + i*sx)[rowmask]
+            y = (y0 + i*dy + jvec*sy)[rowmask]
 
             if len(x) != 0:
 
@@ -444,10 +441,10 @@ class RegularGrid(Grid):
         if reference == 'center':
             pass
         elif reference == 'edge':
-            lx -= 0.5*dx - 0.5*sx
-            rx += 0.5*dx + 0.5*sx
-            by -= 0.5*dy - 0.5*sy
-            ty += 0.5*dy + 0.5*sy
+            lx -= 0.5*abs(dx) + 0.5*abs(sx)
+            rx += 0.5*abs(dx) + 0.5*abs(sx)
+            by -= 0.5*abs(dy) + 0.5*abs(sy)
+            ty += 0.5*abs(dy) + 0.5*abs(sy)
         else:
             raise errors.GridError("`reference` must be 'center' or 'edge'")
 
-- 
2.43.0


From 28121aab8c5b0aa3f0df10cf0aad2f23de6c4265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:49 +0000
Subject: [PATCH 04/93] fix: integer grid indices out of range raise IndexError

---
 karta/raster/band.py | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/karta/raster/band.py b/karta/raster/band.py
index 7a27a7a..45af29d 100644
--- a/karta/raster/band.py
+++ b/karta/raster/band.py
@@ -37,6 +37,13 @@ import numpy as np
 from numbers import Real, Integral
 from math import ceil
 
+def _normalize_index(index, n):
+    """ Return *index* counted from the start of a dimension of size *n* """
+    if not (-n <= index < n):
+        raise IndexError("index {0} out of range for dimension of size "
+                         "{1}".format(index, n))
+    return index % n
+
 class BandIndexer(object):
 
     def __init__(self, bands):
@@ -57,7 +64,7 @@ class BandIndexer(object):
 
         if isinstance(key[0], Integral):
             collapse_rows = True
-            r = key[0] % ny
+            r = _normalize_index(key[0], ny)
             ystart, yend, ystep = (r, r+1, 1)
         elif isinstance(key[0], slice):
             ystart, yend, ystep = key[0].indices(ny)
@@ -66,7 +73,7 @@ class BandIndexer(object):
 
         if isinstance(key[1], Integral):
             collapse_cols = True
-            r = key[1] % nx
+            r = _normalize_index(key[1], nx)
             xstart, xend, xstep = (r, r+1, 1)
         elif isinstance(key[1], slice):
             xstart, xend, xstep = key[1].indices(nx)
@@ -77,7 +84,7 @@ class BandIndexer(object):
             bands = list(range(len(self.bands)))
         elif len(key) == 3 and isinstance(key[2], Integral):
             collapse_bands = True
-            bands = [key[2] % len(self.bands)]
+            bands = [_normalize_index(key[2], len(self.bands))]
         elif len(key) == 3 and isinstance(key[2], slice):
             bands = list(range(*key[2].indices(len(self.bands))))
         else:
@@ -122,7 +129,7 @@ class BandIndexer(object):
         ny, nx = self.bands[0].size
 
         if isinstance(key[0], Integral):
-            r = key[0] % ny
+            r = _normalize_index(key[0], ny)
             ystart, yend, ystep = (r, r+1, 1)
         elif isinstance(key[0], slice):
             ystart, yend, ystep = key[0].indices(ny)
@@ -130,7 +137,7 @@ class BandIndexer(object):
             raise TypeError("first key item should be an integer or a slice")
 
         if isinstance(key[1], Integral):
-            r = key[1] % nx
+            r = _normalize_index(key[1], nx)
             xstart, xend, xstep = (r, r+1, 1)
         elif isinstance(key[1], slice):
             xstart, xend, xstep = key[1].indices(nx)
@@ -141,7 +148,7 @@ class BandIndexer(object):
             bands = list(range(len(self.bands)))
         elif len(key) == 3 and isinstance(key[2], Integral):
             collapse_bands = True
-            bands = [key[2] % len(self.bands)]
+            bands = [_normalize_index(key[2], len(self.bands))]
         elif len(key) == 3 and isinstance(key[2], slice):
             bands = list(range(*key[2].indices(len(self.bands))))
         else:
-- 
2.43.0


From 949669a5055b8837a90c07859c77e7e91ca0f354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:49 +0000
Subject: [PATCH 05/93] fix: empty slices of a grid return empty arrays

---
 karta/raster/band.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/karta/raster/band.py b/karta/raster/band.py
index 45af29d..c6ed6a5 100644
--- a/karta/raster/band.py
+++ b/karta/raster/band.py
@@ -96,6 +96,9 @@ class BandIndexer(object):
         if xstep < 0:
             xstart, xend = xend+1, xstart+1
 
+        yend = max(ystart, yend)
+        xend = max(xstart, xend)
+
         shape = [1 + (yend-ystart-1) // abs(ystep),
                  1 + (xend-xstart-1) // abs(xstep),
                  len(bands)]
@@ -163,6 +166,9 @@ class BandIndexer(object):
             #if xstep < 0:
             #    xstart, xend = xend+1, xstart+1
 
+        yend = max(ystart, yend)
+        xend = max(xstart, xend)
+
         shape = [1 + (yend-ystart-1) // abs(ystep),
                  1 + (xend-xstart-1) // abs(xstep),
                  len(bands)]
-- 
2.43.0


From 237dfc7298962bcbdc9cfe9c5e4f35f8fc57b802 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:49 +0000
Subject: [PATCH 06/93] fix: setting values through a multiband mask

---
 karta/raster/band.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/karta/raster/band.py b/karta/raster/band.py
index c6ed6a5..6476a50 100644
--- a/karta/raster/band.py
+++ b/karta/raster/band.py
@@ -197,6 +197,13 @@ class BandIndexer(object):
     def _set_from_array_mask(self, mask, value):
         # The mask is assumed to be in (row, column[, band]) order
         # TODO: make this memory efficient
+        if mask.ndim == 3 and getattr(value, "ndim", 0) == 1:
+            # values are in the order returned by _get_from_array_mask
+            tmp = self[:,:,:]
+            tmp[mask] = value
+            self[:,:,:] = tmp
+            return
+
         for i, band in enumerate(self.bands):
 
             if mask.ndim == 3:
-- 
2.43.0


From 52e0eb4ec312db1139112882b9f6aa3b2f3948a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:49 +0000
Subject: [PATCH 07/93] fix: clip a box reaching beyond the grid

---
 karta/raster/grid.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/karta/raster/grid.py b/karta/raster/grid.py
index 8ce552b..fdfba28 100644
--- a/karta/raster/grid.py
+++ b/karta/raster/grid.py
@@ -548,6 +548,10 @@ class RegularGrid(Grid):
         j0 = int(np.ceil(min(ll[1], lr[1], ul[1], ur[1])))
         j1 = int(np.floor(max(ll[1], lr[1], ul[1], ur[1]))) + 1
 
+        # Constrain to the grid
+        i0, j0 = max(i0, 0), max(j0, 0)
+        i1, j1 = max(i1, i0), max(j1, j0)
+
         values = self[i0:i1,j0:j1].copy()
         x0 = t[0] + j0*t[2] + i0*t[4]
         y0 = t[1] + i0*t[3] + j0*t[5]
-- 
2.43.0


From 300f5193f74000b1067fc31e4e53f47c667829dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:49 +0000
Subject: [PATCH 08/93] fix: default chunk size of grids smaller than four
 cells

---
 karta/raster/grid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/karta/raster/grid.py b/karta/raster/grid.py
index fdfba28..ff3b4ec 100644
--- a/karta/raster/grid.py
+++ b/karta/raster/grid.py
@@ -491,7 +491,7 @@ class RegularGrid(Grid):
         """
         ny, nx = self.size
         if size == (-1, -1):
-            size = (nx//4, ny//4)
+            size = (max(1, nx//4), max(1, ny//4))
 
         i0 = 0
         j0 = 0
-- 
2.43.0


From 48c1eb4178b7a637032e2a351e0d8935c43fba9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:49 +0000
Subject: [PATCH 09/93] fix: sample_nearest band order and points entirely out
 of bounds

---
 karta/raster/grid.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/karta/raster/grid.py b/karta/raster/grid.py
index ff3b4ec..92872ef 100644
--- a/karta/raster/grid.py
+++ b/karta/raster/grid.py
@@ -864,6 +864,10 @@ class RegularGrid(Grid):
         I = I[~out_of_bounds_mask]
         J = J[~out_of_bounds_mask]
 
+        if len(I) == 0:
+            return np.full((self.nbands,) + x.shape, self.nodata_value,
+                           dtype=self.bands[0].dtype)
+
         Imn = int(np.floor(I.min())-1)
         Imx = int(np.ceil(I.max()+1))
         Jmn = int(np.floor(J.min())-1)
@@ -884,9 +888,9 @@ class RegularGrid(Grid):
         data[~out_of_bounds_mask, :] = self[Imn:Imx,Jmn:Jmx,:][I,J].reshape(sum(~out_of_bounds_mask), self.nbands)
 
         if x.ndim == 1:
-            return data.reshape(self.nbands, x.shape[0])
+            return data.T.reshape(self.nbands, x.shape[0])
         else:
-            return data.reshape(self.nbands, x.shape[0], x.shape[1])
+            return data.T.reshape(self.nbands, x.shape[0], x.shape[1])
 
     def sample_bilinear(self, x, y):
         """ Return the value nearest to coordinates using a bi-linear sampling
-- 
2.43.0


From e4d1c468ae6c747e50b2a02c1c29c9f691489e0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:50 +0000
Subject: [PATCH 10/93] fix: sample_bilinear on single-row or single-column
 regions

---
 karta/raster/grid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/karta/raster/grid.py b/karta/raster/grid.py
index 92872ef..754089f 100644
--- a/karta/raster/grid.py
+++ b/karta/raster/grid.py
@@ -950,7 +950,7 @@ class RegularGrid(Grid):
 
         data = []
         for i, band in enumerate(self.bands):
-            v = self[Imn:Imx,Jmn:Jmx,i].squeeze()
+            v = self[Imn:Imx,Jmn:Jmx,i]
             if band.dtype in (np.float32, np.float64):
                 data.append(crfuncs.sample_bilinear_double(I, J, v.astype(np.float64), self.nodata_value))
             elif band.dtype in (np.int16, np.int32, np.int64):
-- 
2.43.0


From 3d5dca45fda1a51a2bdbd61c2d96dae97dae4864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:27 +0000
Subject: [PATCH 11/93] fix: bilinear sampling of integer grids outside the
 grid

---
 karta/raster/crfuncs.pyx | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/karta/raster/crfuncs.pyx b/karta/raster/crfuncs.pyx
index de7b055..cc0de43 100644
--- a/karta/raster/crfuncs.pyx
+++ b/karta/raster/crfuncs.pyx
@@ -109,10 +109,13 @@ def sample_bilinear_int(double[:] I not None, double[:] J not None,
             j0 = int(j)
             j1 = int(j + 1.0)
 
-        out[cnt] = int(float(Z[i0,j0]) * (i1-i) * (j1-j)
-                     + float(Z[i1,j0]) * (i-i0) * (j1-j) \
-                     + float(Z[i0,j1]) * (i1-i) * (j-j0) \
-                     + float(Z[i1,j1]) * (i-i0) * (j-j0))
+        if i0 >= 0 and i1 < m and j0 >= 0 and j1 < n:
+            out[cnt] = int(float(Z[i0,j0]) * (i1-i) * (j1-j)
+                         + float(Z[i1,j0]) * (i-i0) * (j1-j) \
+                         + float(Z[i0,j1]) * (i1-i) * (j-j0) \
+                         + float(Z[i1,j1]) * (i-i0) * (j-j0))
+        else:
+            out[cnt] = na
     return out
 
 def sample_bilinear_double(double[:] I not None, double[:] J not None,
-- 
2.43.0


From a7e244b528b1165f41b9249c518f4e9e48c7b267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:27 +0000
Subject: [PATCH 12/93] fix: bilinear sampling of 64-bit signed and 32-bit
 unsigned grids

---
 karta/raster/grid.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/karta/raster/grid.py b/karta/raster/grid.py
index 754089f..0c6b279 100644
--- a/karta/raster/grid.py
+++ b/karta/raster/grid.py
@@ -953,9 +953,12 @@ class RegularGrid(Grid):
             v = self[Imn:Imx,Jmn:Jmx,i]
             if band.dtype in (np.float32, np.float64):
                 data.append(crfuncs.sample_bilinear_double(I, J, v.astype(np.float64), self.nodata_value))
-            elif band.dtype in (np.int16, np.int32, np.int64):
+            elif band.dtype in (np.int64, np.uint32):
+                # values and nodata may exceed the range of the integer kernels
+                data.append(crfuncs.sample_bilinear_double(I, J, v.astype(np.float64), self.nodata_value).astype(band.dtype))
+            elif band.dtype in (np.int16, np.int32):
                 data.append(crfuncs.sample_bilinear_int(I, J, v.astype(np.int32), self.nodata_value))
-            elif band.dtype in (np.uint8, np.uint16, np.uint32):
+            elif band.dtype in (np.uint8, np.uint16):
                 data.append(crfuncs.sample_bilinear_uint(I, J, v.astype(np.uint16), self.nodata_value))
             else:
                 raise NotImplementedError("no sample_bilinear method for dtype:"
-- 
2.43.0


From c2f91ff3dc849f21ff34549836ed6347f4d946b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:27 +0000
Subject: [PATCH 13/93] fix: sample accepts a pair of scalar coordinates

---
 karta/raster/grid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/karta/raster/grid.py b/karta/raster/grid.py
index 0c6b279..c67533d 100644
--- a/karta/raster/grid.py
+++ b/karta/raster/grid.py
@@ -1025,7 +1025,7 @@ class RegularGrid(Grid):
                     x, y = crs.transform(self.crs, x, y)
             except IndexError:
                 raise argerror
-            if len(x) != len(y):
+            if hasattr(x, "__len__") and len(x) != len(y):
                 raise argerror
 
         if method == "nearest":
-- 
2.43.0


From 2371dc6c16c6c795081769a5ff1042506751bf59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:27 +0000
Subject: [PATCH 14/93] fix: merge tolerates round-off in grid offsets

---
 karta/raster/grid.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/karta/raster/grid.py b/karta/raster/grid.py
index c67533d..e7e3766 100644
--- a/karta/raster/grid.py
+++ b/karta/raster/grid.py
@@ -1173,9 +1173,9 @@ def merge(grids, weights=None):
     # Check grid offset
     excmsg = "grid %d not an integer translation from grid 1"
     for i, grid in enumerate(grids[1:]):
-        if ((grid.transform[0]-T[0]) / float(T[2])) % 1 > 1e-15:
-            raise ValueError(excmsg % (i+2,))
-        if ((grid.transform[1]-T[1]) / float(T[3])) % 1 > 1e-15:
+        offx = (grid.transform[0]-T[0]) / float(T[2])
+        offy = (grid.transform[1]-T[1]) / float(T[3])
+        if abs(offx - round(offx)) > 1e-6 or abs(offy - round(offy)) > 1e-6:
             raise ValueError(excmsg % (i+2,))
 
     # Check number of grid bands
@@ -1212,8 +1212,8 @@ def merge(grids, weights=None):
 
         for grid, weight in zip(grids, normalizedweights):
             _xmin, _xmax, _ymin, _ymax = grid.extent(reference='edge')
-            offx = int((_xmin-xmin) / T[2])
-            offy = int((_ymin-ymin) / T[3])
+            offx = int(round((_xmin-xmin) / T[2]))
+            offy = int(round((_ymin-ymin) / T[3]))
             _ny, _nx = grid.size
 
             mask = grid.data_mask
-- 
2.43.0


From 3fbef6f3c9ffe03fe0a910eed85c70d5277b34a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:27 +0000
Subject: [PATCH 15/93] fix: merge of integer grids

---
 karta/raster/grid.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/karta/raster/grid.py b/karta/raster/grid.py
index e7e3766..de44721 100644
--- a/karta/raster/grid.py
+++ b/karta/raster/grid.py
@@ -1207,7 +1207,7 @@ def merge(grids, weights=None):
     outbands = []
 
     for iband in range(len(grids[0].bands)):
-        values = np.zeros([ny, nx], dtype=typ)
+        values = np.zeros([ny, nx], dtype=np.result_type(typ, np.float64))
         counts = np.zeros([ny, nx], dtype=np.float32)
 
         for grid, weight in zip(grids, normalizedweights):
@@ -1224,6 +1224,9 @@ def merge(grids, weights=None):
 
         validcountmask = (counts!=0.0)
         values[validcountmask] = values[validcountmask] / counts[validcountmask]
+        if np.issubdtype(typ, np.integer):
+            values = np.rint(values)
+        values = values.astype(typ)
         values[~validcountmask] = grids[0].nodata
 
         band = CompressedBand((ny, nx), typ, initval=grids[0].nodata)
-- 
2.43.0


From 29f6292245185e85a69ef4402fc9aa6f0988a355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:27 +0000
Subject: [PATCH 16/93] fix: ESRI ASCII grids are written with numeric rows
 from north to south

---
 karta/raster/grid.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/karta/raster/grid.py b/karta/raster/grid.py
index de44721..0d1bf2b 100644
--- a/karta/raster/grid.py
+++ b/karta/raster/grid.py
@@ -1112,7 +1112,7 @@ class RegularGrid(Grid):
             raise errors.GridError("ESRI ASCII grids require isometric grid cells")
 
         sx, sy = self.skew
-        if sx != sy != 0.0:
+        if sx != 0.0 or sy != 0.0:
             raise errors.GridError("skewed grids cannot be written as ESRI ASCII")
 
         ny, nx = self.bands[0].size
@@ -1121,8 +1121,8 @@ class RegularGrid(Grid):
             f = open(f, "w")
 
         try:
-            data_a = self[:,:].copy()
-            data_a[np.isnan(data_a)] = nodata_value
+            data_a = self[:,:,0].copy()
+            data_a[~self.data_mask_full[:,:,0]] = nodata_value
 
             f.write("NCOLS {0}\n".format(nx))
             f.write("NROWS {0}\n".format(ny))
@@ -1137,7 +1137,7 @@ class RegularGrid(Grid):
             f.write("CELLSIZE {0}\n".format(dx))
             f.write("NODATA_VALUE {0}\n".format(nodata_value))
             f.writelines([str(row).replace(',','')[1:-1] +
-                            '\n' for row in data_a.tolist()])
+                            '\n' for row in data_a[::-1].tolist()])
         finally:
             f.close()
         return self
-- 
2.43.0


From 03e828f3806f74e061203e44105582422507bbc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:27 +0000
Subject: [PATCH 17/93] fix: GeoTIFF skew terms are read as they are written

---
 karta/raster/read.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/karta/raster/read.py b/karta/raster/read.py
index fd9279b..28fce94 100644
--- a/karta/raster/read.py
+++ b/karta/raster/read.py
@@ -43,12 +43,12 @@ def read_geotiff(fnm, in_memory=True, ibands=_gdal.ALL, **kw):
     """
     bands, hdr = _gdal.read(fnm, in_memory, ibands, **kw)
 
-    t = {'xllcorner': hdr['xulcorner'] - hdr['ny'] * hdr['sx'],
+    t = {'xllcorner': hdr['xulcorner'] + hdr['ny'] * hdr['sx'],
          'yllcorner': hdr['yulcorner'] + hdr['ny'] * hdr['dy'],
          'dx'       : hdr['dx'],
          'dy'       : -hdr['dy'],
-         'sx'       : hdr['sx'],
-         'sy'       : -hdr['sy']}
+         'sx'       : -hdr['sx'],
+         'sy'       : hdr['sy']}
 
     if len(hdr["srs"]["proj4"]) == 0:
         # invalid or missing SRS information
@@ -95,12 +95,12 @@ def from_geotiffs(*fnms, **kw):
         hdrs.append(_h)
 
     hdr = hdrs[0]
-    t = {'xllcorner': hdr['xulcorner'] - hdr['ny'] * hdr['sx'],
+    t = {'xllcorner': hdr['xulcorner'] + hdr['ny'] * hdr['sx'],
          'yllcorner': hdr['yulcorner'] + hdr['ny'] * hdr['dy'],
          'dx'       : hdr['dx'],
          'dy'       : -hdr['dy'],
-         'sx'       : hdr['sx'],
-         'sy'       : -hdr['sy']}
+         'sx'       : -hdr['sx'],
+         'sy'       : hdr['sy']}
 
     if proj4_isgeodetic(hdr["srs"]["proj4"]):
         geodstr = "+a={a} +f={f}".format(a=hdr["srs"]["semimajor"],
-- 
2.43.0


From fa090af4941c1f179dd5fc6e1662f02ca19b360c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:27 +0000
Subject: [PATCH 18/93] fix: GeoTIFF geographical coordinate systems use the
 flattening

---
 karta/raster/_gdal.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/karta/raster/_gdal.py b/karta/raster/_gdal.py
index 8b2f906..451f0c8 100644
--- a/karta/raster/_gdal.py
+++ b/karta/raster/_gdal.py
@@ -155,7 +155,8 @@ def read(fnm, in_memory, ibands=ALL, bandclass=CompressedBand):
         if sr is not None:
             hdr["srs"] = {"proj4": sr.ExportToProj4(),
                           "semimajor": sr.GetSemiMajor(),
-                          "flattening": sr.GetInvFlattening(),
+                          "flattening": (1.0 / sr.GetInvFlattening()
+                                         if sr.GetInvFlattening() != 0 else 0.0),
                           "name": sr.GetAttrValue('PROJCS')}
         else:
             hdr["srs"] = {"proj4": "",
-- 
2.43.0


From f58ae3cbac0c476c4b1017837a4d90eef860cbf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:27 +0000
Subject: [PATCH 19/93] fix: read GeoTIFFs with a single row or column

---
 karta/raster/_gdal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/karta/raster/_gdal.py b/karta/raster/_gdal.py
index 451f0c8..9cbff8b 100644
--- a/karta/raster/_gdal.py
+++ b/karta/raster/_gdal.py
@@ -179,7 +179,7 @@ def read(fnm, in_memory, ibands=ALL, bandclass=CompressedBand):
                 _arr = rb.ReadAsArray(buf_obj=np.empty([ny, nx], dtype=dtype))
                 if _arr is None:
                     raise IOError("error reading GDAL band {}".format(i+1))
-                bands[i].setblock(0, 0, _arr.squeeze()[::-1])
+                bands[i].setblock(0, 0, _arr[::-1])
         else:
             bands = [GdalFileBand(rb, dataset) for rb in rasterbands]
 
-- 
2.43.0


From 39007df63e9cf4d659d87074cf0b95f4c9e56825 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:27 +0000
Subject: [PATCH 20/93] fix: sums and differences of grids keep nodata cells as
 nodata

---
 karta/raster/grid.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/karta/raster/grid.py b/karta/raster/grid.py
index 0d1bf2b..b3cce31 100644
--- a/karta/raster/grid.py
+++ b/karta/raster/grid.py
@@ -195,16 +195,18 @@ class RegularGrid(Grid):
 
     def __add__(self, other):
         if self._equivalent_structure(other):
-            return RegularGrid(copy.copy(self.transform),
-                               values=self[:,:]+other[:,:],
+            values = self[:,:] + other[:,:]
+            values[~(self.data_mask_full & other.data_mask_full)] = self.nodata
+            return RegularGrid(copy.copy(self.transform), values=values,
                                crs=self.crs, nodata_value=self.nodata)
         else:
             raise ValueError(self, other)
 
     def __sub__(self, other):
         if self._equivalent_structure(other):
-            return RegularGrid(copy.copy(self.transform),
-                               values=self[:,:]-other[:,:],
+            values = self[:,:] - other[:,:]
+            values[~(self.data_mask_full & other.data_mask_full)] = self.nodata
+            return RegularGrid(copy.copy(self.transform), values=values,
                                crs=self.crs, nodata_value=self.nodata)
         else:
             raise ValueError(self, other)
-- 
2.43.0


From b40003700e69e8ee77080a60e48bac9ba11c970b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:27 +0000
Subject: [PATCH 21/93] fix: coordinate arrays for slices of a single row or
 column

---
 karta/raster/coordgen.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/karta/raster/coordgen.py b/karta/raster/coordgen.py
index 8a9b48c..02ce61d 100644
--- a/karta/raster/coordgen.py
+++ b/karta/raster/coordgen.py
@@ -56,8 +56,7 @@ class CoordinateGenerator(object):
             ikey = np.arange(*ikey.indices(self.size[0]))
         if isinstance(jkey, slice):
             jkey = np.arange(*jkey.indices(self.size[1]))
-        if hasattr(ikey, "__len__") and hasattr(jkey, "__len__") and \
-                (len(ikey) > 1) and (len(jkey) > 1):
+        if hasattr(ikey, "__len__") and hasattr(jkey, "__len__"):
             jkey, ikey = np.meshgrid(jkey, ikey)
         T = self.transform
         x_ = T[0] + jkey*T[2] + ikey*T[4] + 0.5*T[2] + 0.5*T[4]
-- 
2.43.0


From 132b6998aa1a606dff799adde1fb14282bc8e829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:27 +0000
Subject: [PATCH 22/93] fix: resize to a box that does not overlap the grid

---
 karta/raster/grid.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/karta/raster/grid.py b/karta/raster/grid.py
index b3cce31..8ec62ad 100644
--- a/karta/raster/grid.py
+++ b/karta/raster/grid.py
@@ -608,7 +608,8 @@ class RegularGrid(Grid):
         for band in self.bands:
             newband = self._bndcls((nynew, nxnew), dtype=band.dtype,
                                    initval=self.nodata)
-            newband.setblock(i0new, j0new, band.getblock(i0, j0, i1-i0, j1-j0))
+            if i1 > i0 and j1 > j0:
+                newband.setblock(i0new, j0new, band.getblock(i0, j0, i1-i0, j1-j0))
             newbands.append(newband)
 
         gridnew = RegularGrid(Tnew, bands=newbands, crs=self.crs,
-- 
2.43.0


From e3c1a5efb97eaeebc78eb42ac08a28b75df47017 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:16 +0000
Subject: [PATCH 23/93] fix: mask_poly follows polygon edges on non-square and
 skewed cells

---
 karta/raster/grid.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/karta/raster/grid.py b/karta/raster/grid.py
index 8ec62ad..18e4261 100644
--- a/karta/raster/grid.py
+++ b/karta/raster/grid.py
@@ -1367,14 +1367,18 @@ def mask_poly(xpoly, ypoly, nx, ny, transform):
         i1 = int(round((y1-tb - tf/tc*(x1-ta)) / (td - tf*te/tc)))
         j1 = int(round((x1-ta - te/td*(y1-tb)) / (tc - te*tf/td)))
 
-        # If segment is horizontal or off-grid, ignore
-        if ((0 <= i0 < ny) and (0 <= i1 < ny)) or (y1 != y0):
+        # If segment is along a row, ignore
+        if i1 != i0:
 
-            if y1 > y0:     # upward - mark grid cells to the right
+            # columns crossed per row is dj/di
+            dj = (x1-x0) - te/td*(y1-y0)
+            di = ((y1-y0) - tf/tc*(x1-x0)) * (tc/td)
+
+            if i1 > i0:     # upward - mark grid cells to the right
 
                 for i in range(i0, i1):
                     if (0 <= i < ny):
-                        j = int(round((i-i0) * (x1-x0)/(y1-y0) + j0))
+                        j = int(round((i-i0) * dj/di + j0))
                         if j < nx:
                             mask[i, max(0, j):] += 1
 
@@ -1382,7 +1386,7 @@ def mask_poly(xpoly, ypoly, nx, ny, transform):
 
                 for i in range(i1, i0):
                     if (0 <= i < ny):
-                        j = int(round((i-i1) * (x1-x0)/(y1-y0) + j1))
+                        j = int(round((i-i1) * dj/di + j1))
                         if j < nx:
                             mask[i, max(0, j):] -= 1
 
-- 
2.43.0


From 23482c0a0f4a407651c6744526924d7e151ebc64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:16 +0000
Subject: [PATCH 24/93] fix: gridpoints accepts any iterable and any number of
 points per cell

---
 karta/raster/grid.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/karta/raster/grid.py b/karta/raster/grid.py
index 18e4261..433a5b1 100644
--- a/karta/raster/grid.py
+++ b/karta/raster/grid.py
@@ -1288,6 +1288,7 @@ def gridpoints(x, y, z, transform, crs):
                        nodata_value=np.nan)
 
     array = np.zeros([ny, nx])
+    z = np.asarray(z)
     (I, J) = grid.indices(x, y)
 
     try:
@@ -1299,7 +1300,7 @@ def gridpoints(x, y, z, transform, crs):
     except ValueError:
         # Fast version works when *z* is of type double (np.float64).
         # Python fallback for other types
-        counts = np.zeros([ny, nx], dtype=np.int16)
+        counts = np.zeros([ny, nx], dtype=np.int64)
         for (i,j,z_) in zip(I, J, z):
             array[i,j] += z_
             counts[i,j] += 1
-- 
2.43.0


From 9bf06e0250be3b6f67975b2e6a3fc91729f2f8d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:03 +0000
Subject: [PATCH 25/93] fix: azimuth between points on a meridian

---
 karta/vector/geometry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/karta/vector/geometry.py b/karta/vector/geometry.py
index ececdc1..7aa8a1a 100644
--- a/karta/vector/geometry.py
+++ b/karta/vector/geometry.py
@@ -173,7 +173,7 @@ class Point(Geometry, Rotatable, GeoJSONOutMixin, ShapefileOutMixin):
         else:
             lon0, lat0 = self.crs.project(self.x, self.y, inverse=True)
             lon1, lat1 = other.crs.project(other.x, other.y, inverse=True)
-            if (lon0 != lon1) or (lat0 == lat1):
+            if (lon0 != lon1) or (lat0 != lat1):
                 az, _, _ = self.crs.inverse(lon0, lat0, lon1, lat1)
         return az
 
-- 
2.43.0


From 5de5776830e5254bbf8f467df0e676e8f99aa284 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:03 +0000
Subject: [PATCH 26/93] fix: within_distance is satisfied by any segment

---
 karta/vector/geometry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/karta/vector/geometry.py b/karta/vector/geometry.py
index 7aa8a1a..1530bfc 100644
--- a/karta/vector/geometry.py
+++ b/karta/vector/geometry.py
@@ -803,7 +803,7 @@ class ConnectedMultiVertexMixin(MultiVertexMixin):
         -----
         - If CRS is Geographical, uses distance defined by the CRS instance.
         """
-        return all(distance >= seg.shortest_distance_to(point)
+        return any(distance >= seg.shortest_distance_to(point)
                     for seg in self.segments)
 
     def crosses_dateline(self):
-- 
2.43.0


From 418d0e65e980673e239d05497e0aa30849c549cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:03 +0000
Subject: [PATCH 27/93] fix: geometries made from coordinate strings are closed
 only when polygonal

---
 karta/vector/geometry.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/karta/vector/geometry.py b/karta/vector/geometry.py
index 1530bfc..f3c9bd1 100644
--- a/karta/vector/geometry.py
+++ b/karta/vector/geometry.py
@@ -337,6 +337,8 @@ class MultiVertexBase(Geometry):
         super(MultiVertexBase, self).__init__(**kwargs)
 
         if isinstance(vertices, CoordString):
+            if bool(vertices.ring) != ring:
+                vertices = CoordString(vertices.asarray(), ring=ring)
             self._vertices = vertices
             return
 
-- 
2.43.0


From cdc47e51d997c310ee1ef47913956312142145b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:03 +0000
Subject: [PATCH 28/93] fix: Polygon.to_line

---
 karta/vector/geometry.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/karta/vector/geometry.py b/karta/vector/geometry.py
index f3c9bd1..294a1fd 100644
--- a/karta/vector/geometry.py
+++ b/karta/vector/geometry.py
@@ -1177,8 +1177,7 @@ class Polygon(MultiVertexBase, Rotatable, ConnectedMultiVertexMixin, GeoJSONOutM
 
     def to_line(self):
         """ Returns a self-closing polyline. Discards sub-polygons. """
-        v = self._vertices + self._vertices[0]
-        return Line(v, properties=self.properties, crs=self.crs)
+        return Line(self.vertices_ring, properties=self.properties, crs=self.crs)
 
 class Multipart(Geometry):
     """ Base for objects consisting of multiple singular types. """
-- 
2.43.0


From 3cfdbe83a2e005b00401f3a79d77131b41697121 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:03 +0000
Subject: [PATCH 29/93] fix: nearest position on a polygon boundary considers
 the closing segment

---
 karta/vector/geometry.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/karta/vector/geometry.py b/karta/vector/geometry.py
index 294a1fd..f69d5bb 100644
--- a/karta/vector/geometry.py
+++ b/karta/vector/geometry.py
@@ -739,8 +739,10 @@ class ConnectedMultiVertexMixin(MultiVertexMixin):
         - If CRS is Geographical, uses distance defined by the CRS instance.
         """
         ptvertex = point.vertex(crs=self.crs)
-        segments = zip(self._vertices.slice(0, -1).asarray(),
-                       self._vertices.slice(1, 0).asarray())
+        vertices = self._vertices.asarray()
+        segments = list(zip(vertices[:-1], vertices[1:]))
+        if self._vertices.ring:
+            segments.append((vertices[-1], vertices[0]))
 
         if isinstance(self.crs, CartesianCRS):
             func = _cvectorgeo.pt_nearest_planar
-- 
2.43.0


From 78961563b0bc7e186a3d57898f11d70a7dbea4f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:03 +0000
Subject: [PATCH 30/93] fix: Line.extend retains the vertex representation

---
 karta/vector/geometry.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/karta/vector/geometry.py b/karta/vector/geometry.py
index f69d5bb..76a95eb 100644
--- a/karta/vector/geometry.py
+++ b/karta/vector/geometry.py
@@ -866,13 +866,14 @@ class Line(MultiVertexBase, ConnectedMultiVertexMixin, Rotatable, GeoJSONOutMixi
         """
         if len(self._vertices[0]) != len(other._vertices[0]):
             raise ValueError("Rank mismatch ({0} != "
-                    "{1})".format(self._vertices.shape[1],
-                                  other._vertices.shape[1]))
+                    "{1})".format(len(self._vertices[0]),
+                                  len(other._vertices[0])))
         if self._geotype != other._geotype:
             raise TypeError("Geometry mismatch ({0} != "
                     "{1})".format(self._geotype, other._geotype))
 
-        self._vertices = np.vstack([self._vertices, other._vertices])
+        self._vertices = CoordString(np.vstack([self._vertices.asarray(),
+                                                other._vertices.asarray()]))
         self._cache = {}
         return self
 
-- 
2.43.0


From 54383877e5f2509d3deca0b72d56ec73a3c436fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:03 +0000
Subject: [PATCH 31/93] fix: Line.to_points spacing across vertices

---
 karta/vector/geometry.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/karta/vector/geometry.py b/karta/vector/geometry.py
index 76a95eb..0056e36 100644
--- a/karta/vector/geometry.py
+++ b/karta/vector/geometry.py
@@ -910,14 +910,14 @@ class Line(MultiVertexBase, ConnectedMultiVertexMixin, Rotatable, GeoJSONOutMixi
 
             while pos < seg.length:
                 distance_to_endpt = pt0.distance(seg[1])
-                if distance_to_endpt >= dx:
+                if distance_to_endpt >= dx - remainder:
                     pt1 = pt0.walk(dx - remainder, az)
                     pos += dx - remainder
                     vertices.append(pt1.vertex())
                     remainder = 0
                     pt0 = pt1
                 else:
-                    remainder = distance_to_endpt
+                    remainder += distance_to_endpt
                     pos = seg.length
                     pt0 = seg[1]
         return Multipoint(vertices, crs=self.crs)
-- 
2.43.0


From 5725cfc91a3ff32c121f48232b80c0446f2f73df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:03 +0000
Subject: [PATCH 32/93] fix: Multipoint item assignment keeps the spatial
 index, cache and data consistent

---
 karta/vector/geometry.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/karta/vector/geometry.py b/karta/vector/geometry.py
index 0056e36..66a0590 100644
--- a/karta/vector/geometry.py
+++ b/karta/vector/geometry.py
@@ -1290,7 +1290,7 @@ class Multipoint(Multipart, Rotatable, MultiVertexMixin, GeoJSONOutMixin, Shapef
             if hasattr(value, "vertex"):
                 self._vertices[key] = np.array(value.vertex(self.crs), dtype=np.float64)
                 row = []
-                for field in self.data.fields:
+                for field in self.data._fields:
                     row.append(value.properties.get(field, None))
                 self.data[key] = tuple(row)
             else:
@@ -1298,7 +1298,10 @@ class Multipoint(Multipart, Rotatable, MultiVertexMixin, GeoJSONOutMixin, Shapef
                     verts = self._vertices.asarray()
                     verts[key] = value
                     self._vertices = CoordString(verts)
-                self.data[key] = (None for _ in self.data.fields)
+                self.data[key] = tuple(None for _ in self.data.fields)
+            self._cache = {}
+            if hasattr(self, "quadtree"):
+                self.quadtree = QuadTree(self._vertices, leaf_capacity=50)
 
     @property
     def geomdict(self):
-- 
2.43.0


From 4dc4eafa506bee840589485554037a43b3e1795a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:03 +0000
Subject: [PATCH 33/93] fix: subsets keep the order of data fields

---
 karta/vector/geometry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/karta/vector/geometry.py b/karta/vector/geometry.py
index 66a0590..5dce736 100644
--- a/karta/vector/geometry.py
+++ b/karta/vector/geometry.py
@@ -558,7 +558,7 @@ class MultiVertexMixin(object):
         """ Return a subset defined by indices. """
         vertices = [self._vertices[i] for i in idxs]
         if hasattr(self, "data"):
-            data = Table(data=[self.data._data[i] for i in idxs], fields=self.data.fields)
+            data = Table(data=[self.data._data[i] for i in idxs], fields=self.data._fields)
             return type(self)(vertices, properties=self.properties, data=data, crs=self.crs)
         else:
             return type(self)(vertices, properties=self.properties, crs=self.crs)
-- 
2.43.0


From 74165e60fdc20585e6b9d63717cae01cfcee8d11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:03 +0000
Subject: [PATCH 34/93] fix: Multipolygon from polygons with sub-polygons

---
 karta/vector/geometry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/karta/vector/geometry.py b/karta/vector/geometry.py
index 5dce736..3ae4a91 100644
--- a/karta/vector/geometry.py
+++ b/karta/vector/geometry.py
@@ -1693,7 +1693,7 @@ class Multipolygon(Multipart, MultiVertexMultipartMixin, GeoJSONOutMixin,
             for polygon in inputs:
                 rings = [CoordString(polygon.vertices(crs=crs))]
                 for sub in polygon.subs:
-                    rings.append(sub)
+                    rings.append(CoordString(sub.vertices(crs=crs)))
                 self._vertices.append(rings)
             data = merge_properties([polygon.properties for polygon in inputs])
             kwargs["data"] = Table(kwargs.get("data", {})).updated(data)
-- 
2.43.0


From aaacaf0cb99c5689a3b8ed665f02712325a4f606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:03 +0000
Subject: [PATCH 35/93] fix: Multipolygon.merge of mixed rank geometries

---
 karta/vector/geometry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/karta/vector/geometry.py b/karta/vector/geometry.py
index 3ae4a91..3e4a773 100644
--- a/karta/vector/geometry.py
+++ b/karta/vector/geometry.py
@@ -1771,7 +1771,7 @@ class Multipolygon(Multipart, MultiVertexMultipartMixin, GeoJSONOutMixin,
         rankmax = max(arr.shape[1] for arr in itertools.chain(*vertices))
         if rankmin != rankmax:
             for i, v in enumerate(vertices):
-                vertices[i] = [ring[:,:imin] for ring in vertices]
+                vertices[i] = [ring[:,:rankmin] for ring in v]
 
         data = table.merge(mappings)
         return Multipolygon(vertices, data=data, crs=crs)
-- 
2.43.0


From a9524577b6f68951481afb9e3cff2ffa4ffbe7b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:03 +0000
Subject: [PATCH 36/93] fix: Table from a dictionary of scalars is a single row

---
 karta/vector/table.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/karta/vector/table.py b/karta/vector/table.py
index 3e88582..4d8a37f 100644
--- a/karta/vector/table.py
+++ b/karta/vector/table.py
@@ -51,7 +51,7 @@ class Table(Sequence):
                     self._data = [tuple(item) for item in zipvalues]
                 else:
                     # Scalar entries
-                    self._data = [(data[f],) for f in self._fields]
+                    self._data = [tuple(data[f] for f in self._fields)]
             else:
                 # Data is list or scalar
                 self._fields = ("value",)
-- 
2.43.0


From 04e4934ddec0d03178d9c29052ffc48888bf0dfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:03 +0000
Subject: [PATCH 37/93] fix: Table copies do not share rows

---
 karta/vector/table.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/karta/vector/table.py b/karta/vector/table.py
index 4d8a37f..d7b0023 100644
--- a/karta/vector/table.py
+++ b/karta/vector/table.py
@@ -36,7 +36,7 @@ class Table(Sequence):
             if hasattr(data, "_fields"):
                 # Data is Table-like
                 self._fields = data._fields
-                self._data = data._data
+                self._data = list(data._data)
             elif len(data) == 0:
                 # Data is empty dict or empty iterable
                 self._fields = ()
-- 
2.43.0


From 995b4e9236507718e539d8063cfc1c0edfd0a61e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:03 +0000
Subject: [PATCH 38/93] fix: Table type validation

---
 karta/vector/table.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/karta/vector/table.py b/karta/vector/table.py
index d7b0023..41efb74 100644
--- a/karta/vector/table.py
+++ b/karta/vector/table.py
@@ -72,7 +72,7 @@ class Table(Sequence):
 
     def _validatetypes(self):
         for i,t in enumerate(self.types):
-            if not all(isinstance(t, d[i]) for d in self._data):
+            if not all(isinstance(d[i], t) for d in self._data):
                 raise TypeError("data contains item ({0}) not of type {1}" \
                                 .format(self._fields[i], t))
         return
-- 
2.43.0


From eb7d5cd033c80c4738caed20d19aa0bd95932a53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:03 +0000
Subject: [PATCH 39/93] fix: bounding box overlap test for small and thin boxes

---
 karta/vector/intersection.pyx | 14 +++-----------
 1 file changed, 3 insertions(+), 11 deletions(-)

diff --git a/karta/vector/intersection.pyx b/karta/vector/intersection.pyx
index e4947c1..bc95cf4 100644
--- a/karta/vector/intersection.pyx
+++ b/karta/vector/intersection.pyx
@@ -21,19 +21,11 @@ ctypedef bool (*isbetween_t)(double, double, double)
 def bboxes_overlap(tuple bb0, tuple bb1):
     """ Return whether planar bboxes overlap.
     """
-    cdef float dx = 0.0
-    cdef float dy = 0.0
+    cdef double dx = 0.0
+    cdef double dy = 0.0
     dx = fmin(bb0[2], bb1[2]) - fmax(bb0[0], bb1[0])
     dy = fmin(bb0[3], bb1[3]) - fmax(bb0[1], bb1[1])
-    if dx == 0.0:
-        dx = 1.0
-    elif dx < 0.0:
-        dx = 0.0
-    if dy ==  0.0:
-        dy = 1.0
-    elif dy < 0.0:
-        dy = 0.0
-    if dx*dy == 0.0:
+    if dx < 0.0 or dy < 0.0:
         return False
     else:
         return True
-- 
2.43.0


From 4dacf18ec86eb2e9589fac775b2a6caf8465920c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:03 +0000
Subject: [PATCH 40/93] fix: overlap of collinear segments in any direction

---
 karta/vector/intersection.pyx | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/karta/vector/intersection.pyx b/karta/vector/intersection.pyx
index bc95cf4..9d387cc 100644
--- a/karta/vector/intersection.pyx
+++ b/karta/vector/intersection.pyx
@@ -525,10 +525,8 @@ cdef bool iscollinear(double x0, double x1, double x2, double x3,
     if rxs == 0:
         rxt = cross2(Vector2(x1-x0, y1-y0), Vector2(x3-x0, y3-y0))
         if rxt == 0:
-            if (x1-x0) != 0 and overlaps(x0, x1, x2, x3):
-                return True
-            elif overlaps(y0, y1, y2, y3):
-                return True
+            return overlaps(fmin(x0, x1), fmax(x0, x1), fmin(x2, x3), fmax(x2, x3)) \
+                    and overlaps(fmin(y0, y1), fmax(y0, y1), fmin(y2, y3), fmax(y2, y3))
     return False
 
 cdef bool iscollinear_sph(double x0, double x1, double x2, double x3,
-- 
2.43.0


From d198399373c882204bac64448fc3aff1207d7fcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:03 +0000
Subject: [PATCH 41/93] fix: nearest point on short and zero-length segments

---
 karta/vector/vectorgeo.pyx | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/karta/vector/vectorgeo.pyx b/karta/vector/vectorgeo.pyx
index 83e5ef4..059eab8 100644
--- a/karta/vector/vectorgeo.pyx
+++ b/karta/vector/vectorgeo.pyx
@@ -212,12 +212,14 @@ def pt_nearest_planar(double x, double y,
 
     u = Vector2(x - pt0.x, y - pt0.y)
     v = Vector2(pt1.x - pt0.x, pt1.y - pt0.y)
+    if v.x == 0.0 and v.y == 0.0:
+        return ((pt0.x, pt0.y), dist2(pt0, pt))
     u_on_v = proj2(u, v)
     u_int = Vector2(u_on_v.x + pt0.x, u_on_v.y + pt0.y)
 
     # Determine whether u_int is inside the segment
     # Otherwise return the nearest endpoint
-    if fabs(pt0.x - pt1.x) < 1e-4:  # Segment is near vertical
+    if fabs(pt0.x - pt1.x) < fabs(pt0.y - pt1.y):   # Segment is steep
         if u_int.y > fmax(pt0.y, pt1.y):
             if pt0.y > pt1.y:
                 return ((pt0.x, pt0.y), dist2(pt0, pt))
-- 
2.43.0


From d7e94d47df157ef56ddf4c447988701f0dc2da6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:03 +0000
Subject: [PATCH 42/93] fix: ring crossings include the closing segment

---
 karta/vector/intersection.pyx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/karta/vector/intersection.pyx b/karta/vector/intersection.pyx
index 9d387cc..8b57799 100644
--- a/karta/vector/intersection.pyx
+++ b/karta/vector/intersection.pyx
@@ -617,8 +617,8 @@ def count_crossings(double xp, double yp, CoordString coords):
     """
     cdef int n = len(coords)
     cdef int i, cnt = 0
-    if not coords.ring:
-        n -= 1
+    if coords.ring:
+        n += 1
     cdef double x0 = coords.getX(0)
     cdef double y0 = coords.getY(0)
     cdef double x1, y1
-- 
2.43.0


From 9b1761bd326c45563602cf6e1e62f05ecba35bd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:03 +0000
Subject: [PATCH 43/93] fix: convex hull of fewer than two points

---
 karta/vector/convexhull.pyx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/karta/vector/convexhull.pyx b/karta/vector/convexhull.pyx
index a72fd21..195903e 100644
--- a/karta/vector/convexhull.pyx
+++ b/karta/vector/convexhull.pyx
@@ -35,6 +35,8 @@ def convexhull(CoordString cs):
         i += 1
 
     # Sort CCW relative to pt0
+    if n == 1:
+        return [0]
     cdef list azimuth_indices = []
     cdef double az, y
     cdef Vector2 leftmost = Vector2(xleftmost, cs.getY(ileftmost))
-- 
2.43.0


From eae7164affd12a251bb5b040d95df25b24bb628b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:53 +0000
Subject: [PATCH 44/93] fix: points and lines without shared properties form
 multiparts with a data row per member

---
 karta/vector/geometry.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/karta/vector/geometry.py b/karta/vector/geometry.py
index 3e4a773..367872b 100644
--- a/karta/vector/geometry.py
+++ b/karta/vector/geometry.py
@@ -1262,6 +1262,8 @@ class Multipoint(Multipart, Rotatable, MultiVertexMixin, GeoJSONOutMixin, Shapef
             self._vertices = CoordString([point.vertex(crs=crs) for point in inputs])
             data = merge_properties([point.properties for point in inputs])
             kwargs["data"] = Table(kwargs.get("data", {})).updated(data)
+            if len(kwargs["data"]) == 0:
+                kwargs["data"] = None
             kwargs.setdefault("crs", inputs[0].crs)
         else:
             self._vertices = CoordString(inputs)
@@ -1575,6 +1577,8 @@ class Multiline(Multipart, MultiVertexMultipartMixin, GeoJSONOutMixin,
                              for line in inputs]
             data = merge_properties([line.properties for line in inputs])
             kwargs["data"] = Table(kwargs.get("data", {})).updated(data)
+            if len(kwargs["data"]) == 0:
+                kwargs["data"] = None
             kwargs.setdefault("crs", inputs[0].crs)
         else:
             self._vertices = [CoordString(part) for part in inputs]
-- 
2.43.0


From 02574f4d3ff927e00037dd95c43dc991ecd3b818 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:53 +0000
Subject: [PATCH 45/93] fix: members of a Multipolygon slice and index are
 closed rings

---
 karta/vector/geometry.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/karta/vector/geometry.py b/karta/vector/geometry.py
index 367872b..e9e5d36 100644
--- a/karta/vector/geometry.py
+++ b/karta/vector/geometry.py
@@ -1695,9 +1695,9 @@ class Multipolygon(Multipart, MultiVertexMultipartMixin, GeoJSONOutMixin,
             crs = kwargs.get("crs", inputs[0].crs)
             self._vertices = []
             for polygon in inputs:
-                rings = [CoordString(polygon.vertices(crs=crs))]
+                rings = [CoordString(polygon.vertices(crs=crs), ring=True)]
                 for sub in polygon.subs:
-                    rings.append(CoordString(sub.vertices(crs=crs)))
+                    rings.append(CoordString(sub.vertices(crs=crs), ring=True))
                 self._vertices.append(rings)
             data = merge_properties([polygon.properties for polygon in inputs])
             kwargs["data"] = Table(kwargs.get("data", {})).updated(data)
-- 
2.43.0


From 5f10038a6cf1081f7b40e450c591acd90d95f927 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:14 +0000
Subject: [PATCH 46/93] fix: R-tree splits keep node boxes and parents
 consistent

---
 karta/vector/rtree.h | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/karta/vector/rtree.h b/karta/vector/rtree.h
index 32f1a42..c5a013c 100644
--- a/karta/vector/rtree.h
+++ b/karta/vector/rtree.h
@@ -43,6 +43,7 @@ float maxf(float a, float b) {
 // forward declarations
 Node* rt_insert(Node*, Bbox*, int);
 Node* rt_choose_leaf(Node*, Bbox*);
+int rt_tighten_bbox(Node*);
 Node* rt_split(Node*);
 Node* rt_split_nonleaf(Node*);
 Node* rt_split_leaf(Node*);
@@ -223,6 +224,7 @@ Node* rt_insert(Node *root, Bbox *bbox, int index) {
         returned_root = rt_new_node(NONLEAF, root->strategy, root->maxchildren, NULL);
         add_node(returned_root, *outnode);
         add_node(returned_root, *outsibling);
+        rt_tighten_bbox(returned_root);
     } else {
         returned_root = *outnode;
     }
@@ -475,6 +477,8 @@ Node* rt_split_leaf(Node *node) {
         }
     }
 
+    rt_tighten_bbox(node);
+    rt_tighten_bbox(sibling);
     free(index_array);
     pool_destroy(pool);
     pool_destroy(idx_pool);
@@ -587,6 +591,14 @@ Node* rt_split_nonleaf(Node *node) {
         }
     }
 
+    for (i=0; i!=node->count; i++) {
+        ((Node**) node->children)[i]->parent = node;
+    }
+    for (i=0; i!=sibling->count; i++) {
+        ((Node**) sibling->children)[i]->parent = sibling;
+    }
+    rt_tighten_bbox(node);
+    rt_tighten_bbox(sibling);
     pool_destroy(pool);
     pool_destroy(node_pool);
     return sibling;
-- 
2.43.0


From 779d17f60d40113d30da85e8ea85ab2a85ec16cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:14 +0000
Subject: [PATCH 47/93] fix: R-tree split seeds are distinct

---
 karta/vector/rtree.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/karta/vector/rtree.h b/karta/vector/rtree.h
index c5a013c..527ba44 100644
--- a/karta/vector/rtree.h
+++ b/karta/vector/rtree.h
@@ -663,6 +663,9 @@ int linear_pick_seeds(int nbboxes, Bbox **bboxes, int *seed0, int *seed1) {
         *seed0 = imaxymin;
         *seed1 = iminymax;
     }
+    if (*seed0 == *seed1) {
+        *seed1 = (*seed0 == 0) ? 1 : 0;
+    }
     return 0;
 }
 
-- 
2.43.0


From 96e52eb03e0598ac5a59028919e4950e23ed041b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:15 +0000
Subject: [PATCH 48/93] fix: R-tree searches find boxes without area

---
 karta/vector/rtree.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/karta/vector/rtree.h b/karta/vector/rtree.h
index 527ba44..34fcd03 100644
--- a/karta/vector/rtree.h
+++ b/karta/vector/rtree.h
@@ -713,7 +713,8 @@ float bbox_intersection_area(Bbox *bb0, Bbox *bb1) {
 }
 
 int is_overlapping(Bbox *bb, Bbox *testbb) {
-    if (bbox_intersection_area(bb, testbb) > 0.0) {
+    if ((minf(bb->xmax, testbb->xmax) >= maxf(bb->xmin, testbb->xmin)) &&
+        (minf(bb->ymax, testbb->ymax) >= maxf(bb->ymin, testbb->ymin))) {
         return 1;
     } else {
         return 0;
-- 
2.43.0


From e6c27b39f5e0d55a1e402a1129400a5816982332 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:15 +0000
Subject: [PATCH 49/93] fix: R-tree searches return no more than max_results
 items

---
 karta/vector/rtree.h | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/karta/vector/rtree.h b/karta/vector/rtree.h
index 34fcd03..f367c05 100644
--- a/karta/vector/rtree.h
+++ b/karta/vector/rtree.h
@@ -143,6 +143,9 @@ Pool *rt_search_within(Node *node, Bbox *bbox, int max_results) {
                 if (is_within(bbox, child_bbox) == 1) {
                     pool_add(index_pool, (char*) &(active_node->indices[j]));
                     nfound++;
+                    if (nfound == max_results) {
+                        break;
+                    }
                 }
             }
         } else if (active_node->type == NONLEAF) {
@@ -170,15 +173,19 @@ Pool *rt_search_overlapping(Node *node, Bbox *bbox, int max_results) {
     Node *active_node = NULL;
     Node *child_node = NULL;
     Bbox *child_bbox = NULL;
-    int i = 0;
+    int nfound = 0;
     int j;
-    while (i != max_results) {
+    while (nfound != max_results) {
         active_node = (Node*) pool_pop(node_pool, node_pool->count-1);
         if (active_node->type == LEAF) {
             for (j=0; j!=active_node->count; j++){
                 child_bbox = ((Bbox**) active_node->children)[j];
                 if (is_overlapping(bbox, child_bbox) == 1) {
                     pool_add(index_pool, (char*) &(active_node->indices[j]));
+                    nfound++;
+                    if (nfound == max_results) {
+                        break;
+                    }
                 }
             }
         } else if (active_node->type == NONLEAF) {
-- 
2.43.0


From e76f49affc30dee4ebfb7cd3a2bf04f5608d0e02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:15 +0000
Subject: [PATCH 50/93] fix: R-tree frees all of its memory

---
 karta/vector/rtree.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/karta/vector/rtree.h b/karta/vector/rtree.h
index f367c05..bc07fe2 100644
--- a/karta/vector/rtree.h
+++ b/karta/vector/rtree.h
@@ -89,14 +89,15 @@ void rt_free(Node *node) {
         for (i=0; i!=node->count; i++) {
             free(((Bbox**) node->children)[i]);
         }
-        free(node->indices);
-        free(node->bbox);
-        free(node);
     } else if (node->type == NONLEAF) {
         for (i=0; i!=node->count; i++) {
             rt_free(((Node**) node->children)[i]);
         }
     }
+    free(node->children);
+    free(node->indices);
+    free(node->bbox);
+    free(node);
 }
 
 void print_bbox(Bbox *bb) {
-- 
2.43.0


From 2bff1cdb404fba4de7ecd27c1f42d06b4b0955d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:15 +0000
Subject: [PATCH 51/93] fix: quadtree splits replace the node that was split

---
 karta/vector/quadtree.h | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/karta/vector/quadtree.h b/karta/vector/quadtree.h
index 68855de..8fdad95 100644
--- a/karta/vector/quadtree.h
+++ b/karta/vector/quadtree.h
@@ -212,16 +212,15 @@ NonleafNode *qt_split(LeafNode *node) {
     // connect parent to grandparent
     NonleafNode *grandparent = node->parent;
     Quadrant quad;
-    Position p;
     if (grandparent != NULL) {
-        p.x = xmid;
-        p.y = ymid;
-        quad = get_quadrant(grandparent->bbox, &p);
-        switch (quad) {
-            case LOWERLEFT: grandparent->llnode.nonleafnode = parent; break;
-            case UPPERLEFT: grandparent->ulnode.nonleafnode = parent; break;
-            case LOWERRIGHT: grandparent->lrnode.nonleafnode = parent; break;
-            case UPPERRIGHT: grandparent->urnode.nonleafnode = parent; break;
+        if (grandparent->llnode.leafnode == node) {
+            grandparent->llnode.nonleafnode = parent;
+        } else if (grandparent->ulnode.leafnode == node) {
+            grandparent->ulnode.nonleafnode = parent;
+        } else if (grandparent->lrnode.leafnode == node) {
+            grandparent->lrnode.nonleafnode = parent;
+        } else {
+            grandparent->urnode.nonleafnode = parent;
         }
     }
 
-- 
2.43.0


From a923922bc3b15c4b4bb8565b3da725775a966073 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:15 +0000
Subject: [PATCH 52/93] fix: bbox of geographical geometries beyond a dateline
 crossing

---
 karta/vector/dateline.pyx | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/karta/vector/dateline.pyx b/karta/vector/dateline.pyx
index ebf0134..f3e01b9 100644
--- a/karta/vector/dateline.pyx
+++ b/karta/vector/dateline.pyx
@@ -45,13 +45,8 @@ def bbox(CoordString cs):
         xdateline = crosses_dateline(x0, x1)
         if xdateline != 0:
             rot -= xdateline * 360.0
-            xmin = fmin(xmin, x1+rot)
-            xmax = fmax(xmax, x1+rot)
-        else:
-            if x0 > x1:
-                xmin = fmin(xmin, x1)
-            else:
-                xmax = fmax(xmax, x1)
+        xmin = fmin(xmin, x1+rot)
+        xmax = fmax(xmax, x1+rot)
         x0 = x1
         y0 = y1
         i += 1
-- 
2.43.0


From b26c137b5c4fdfe8bc3c8c2d4b7d041b702ff574 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:48 +0000
Subject: [PATCH 53/93] fix: convex hull with collinear and repeated vertices

---
 karta/vector/convexhull.pyx | 50 +++++++++++++++++++------------------
 1 file changed, 26 insertions(+), 24 deletions(-)

diff --git a/karta/vector/convexhull.pyx b/karta/vector/convexhull.pyx
index 195903e..f8520da 100644
--- a/karta/vector/convexhull.pyx
+++ b/karta/vector/convexhull.pyx
@@ -19,8 +19,6 @@ def convexhull(CoordString cs):
     """ Return the convex hull for coordinates on a plane. """
     # Find the leftmost (upper) point
     cdef int n = len(cs)
-    if cs.ring:
-        n += 1
     cdef int ileftmost = 0
     cdef double x, xleftmost = cs.getX(0)
     cdef int i = 1
@@ -35,36 +33,36 @@ def convexhull(CoordString cs):
         i += 1
 
     # Sort CCW relative to pt0
-    if n == 1:
-        return [0]
     cdef list azimuth_indices = []
     cdef double az, y
     cdef Vector2 leftmost = Vector2(xleftmost, cs.getY(ileftmost))
     i = 0
     while i != n:
-        if i == ileftmost:
+        if cs.getX(i) == leftmost.x and cs.getY(i) == leftmost.y:
             i += 1
             continue
         az = M_PI_2 - azimuth(leftmost, Vector2(cs.getX(i), cs.getY(i)))
         azimuth_indices.append((az, i))
         i += 1
+    if len(azimuth_indices) == 0:
+        return [ileftmost]
     azimuth_indices.sort()
 
     # Drop all but farthest of any duplicates
-    cdef int last_idx = 0
-    cdef Vector2 ipt, lastpt = leftmost
-    cdef list indices = [azimuth_indices[0][1]]
+    cdef int last_idx = azimuth_indices[0][1]
+    cdef Vector2 ipt, lastpt = Vector2(cs.getX(last_idx), cs.getY(last_idx))
+    cdef list indices = [last_idx]
     i = 1
     while i != len(azimuth_indices):
-        if azimuth_indices[i][0] == azimuth_indices[last_idx][0]:
-            ipt = Vector2(cs.getX(azimuth_indices[i][1]), cs.getY(azimuth_indices[i][1]))
+        ipt = Vector2(cs.getX(azimuth_indices[i][1]), cs.getY(azimuth_indices[i][1]))
+        if not isleft(leftmost, lastpt, ipt):
             if dist2(leftmost, ipt) > dist2(leftmost, lastpt):
                 # replace last index with that of the current vertex
                 indices[-1] = azimuth_indices[i][1]
-                last_idx = i
-                lastpt = Vector2(cs.getX(last_idx), cs.getY(last_idx))
+                lastpt = ipt
         else:
             indices.append(azimuth_indices[i][1])
+            lastpt = ipt
         i += 1
 
     # Initialize and scan for convex hull
@@ -76,7 +74,8 @@ def convexhull(CoordString cs):
         return hull_indices
 
     for i in indices[2:]:
-        while not isleft(Vector2(cs.getX(hull_indices[-2]), cs.getY(hull_indices[-2])),
+        while len(hull_indices) > 1 and not isleft(
+                         Vector2(cs.getX(hull_indices[-2]), cs.getY(hull_indices[-2])),
                          Vector2(cs.getX(hull_indices[-1]), cs.getY(hull_indices[-1])),
                          Vector2(cs.getX(i), cs.getY(i))):
             hull_indices.pop()
@@ -87,8 +86,6 @@ def convexhull_sph(CoordString cs):
     """ Return the convex hull for coordinates on a sphere. """
     # Find the leftmost (upper) point
     cdef int n = len(cs)
-    if cs.ring:
-        n += 1
     cdef int ileftmost = 0
     cdef double x, xleftmost = cs.getX(0)
     cdef int i = 1
@@ -108,29 +105,33 @@ def convexhull_sph(CoordString cs):
     cdef Vector2 leftmost = Vector2(xleftmost, cs.getY(ileftmost))
     i = 0
     while i != n:
-        if i == ileftmost:
+        if cs.getX(i) == leftmost.x and cs.getY(i) == leftmost.y:
             i += 1
             continue
         az = M_PI_2 - azimuth_sph(leftmost, Vector2(cs.getX(i), cs.getY(i)))
         azimuth_indices.append((az, i))
         i += 1
+    if len(azimuth_indices) == 0:
+        return [ileftmost]
     azimuth_indices.sort()
 
     # Drop all but farthest of any duplicates
-    cdef int last_idx = 0
-    cdef Vector2 ipt, lastpt = leftmost
-    cdef list indices = [azimuth_indices[0][1]]
+    cdef int last_idx = azimuth_indices[0][1]
+    cdef Vector2 ipt, lastpt = Vector2(cs.getX(last_idx), cs.getY(last_idx))
+    cdef list indices = [last_idx]
+    az = azimuth_indices[0][0]
     i = 1
     while i != len(azimuth_indices):
-        if azimuth_indices[i][0] == azimuth_indices[last_idx][0]:
-            ipt = Vector2(cs.getX(azimuth_indices[i][1]), cs.getY(azimuth_indices[i][1]))
+        ipt = Vector2(cs.getX(azimuth_indices[i][1]), cs.getY(azimuth_indices[i][1]))
+        if azimuth_indices[i][0] == az:
             if dist_sph(leftmost, ipt) > dist_sph(leftmost, lastpt):
                 # replace last index with that of the current vertex
                 indices[-1] = azimuth_indices[i][1]
-                last_idx = i
-                lastpt = Vector2(cs.getX(last_idx), cs.getY(last_idx))
+                lastpt = ipt
         else:
             indices.append(azimuth_indices[i][1])
+            az = azimuth_indices[i][0]
+            lastpt = ipt
         i += 1
 
     # Initialize and scan for convex hull
@@ -142,7 +143,8 @@ def convexhull_sph(CoordString cs):
         return hull_indices
 
     for i in indices[2:]:
-        while not isleft_sph(Vector2(cs.getX(hull_indices[-2]), cs.getY(hull_indices[-2])),
+        while len(hull_indices) > 1 and not isleft_sph(
+                             Vector2(cs.getX(hull_indices[-2]), cs.getY(hull_indices[-2])),
                              Vector2(cs.getX(hull_indices[-1]), cs.getY(hull_indices[-1])),
                              Vector2(cs.getX(i), cs.getY(i))):
             hull_indices.pop()
-- 
2.43.0


From b7165cc6b0b70fdf5e78d6deeb648b5277bd254d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:38 +0000
Subject: [PATCH 54/93] fix: cart2sph in the southern hemisphere and at the
 poles

---
 karta/geodesy.py | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/karta/geodesy.py b/karta/geodesy.py
index e46c968..5e03f70 100644
--- a/karta/geodesy.py
+++ b/karta/geodesy.py
@@ -38,14 +38,8 @@ def sph2cart(lon, lat):
     return x, y, z
 
 def cart2sph(x, y, z):
-    if abs(z) > 1e-4:
-        theta = atan(sqrt(x**2+y**2)/z)
-    else:
-        theta = acos(z / sqrt(x**2+y**2+z**2))
-    if abs(x) > 1e-4:
-        lon = atan2(y, x)
-    else:
-        lon = asin(y/sqrt(x**2+y**2))
+    theta = atan2(sqrt(x**2+y**2), z)
+    lon = atan2(y, x)
     lat = 0.5*pi - theta
     return lon*180/pi, lat*180/pi
 
-- 
2.43.0


From ad5b41525e9e00df1161cbde91824affb0ee3425 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:38 +0000
Subject: [PATCH 55/93] fix: distance along the equator across the dateline

---
 karta/geodesy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/karta/geodesy.py b/karta/geodesy.py
index 5e03f70..bf366e1 100644
--- a/karta/geodesy.py
+++ b/karta/geodesy.py
@@ -420,7 +420,7 @@ def _ellipsoidal_inverse_equatorial(a, x1, x2):
     else:
         az = 90.0
         baz = -90.0
-    s12 = 2 * pi * a * abs(x1-x2)/360.0
+    s12 = 2 * pi * a * abs(diff)/360.0
     return az, baz, s12
 
 def ellipsoidal_inverse(a, b, x1, y1, x2, y2, tol=None):
-- 
2.43.0


From 39ae1153e7e9a09f2c22bce3e4de6b6b4b545025 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:38 +0000
Subject: [PATCH 56/93] fix: range of meridional segments given from north to
 south

---
 karta/geodesy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/karta/geodesy.py b/karta/geodesy.py
index bf366e1..ea2fc67 100644
--- a/karta/geodesy.py
+++ b/karta/geodesy.py
@@ -144,7 +144,7 @@ def check_in_segment_range(pt, segment):
     if (dlon < 1e-8) and (abs(segment[0][1]-segment[1][1]) > dlon):
         # strategy 2
         return (abs((pt[0]+360)%360 - lon_1) < 180) and \
-               (segment[0][1] <= pt[1] <= segment[1][1])
+               (min(segment[0][1], segment[1][1]) <= pt[1] <= max(segment[0][1], segment[1][1]))
     else:
         # strategy 1
         return isbetween_circular(pt[0], lon_1, lon_2)
-- 
2.43.0


From 8d67751e54abd374f00c63442e6c27e5b754d6cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:38 +0000
Subject: [PATCH 57/93] fix: Brent's method swaps function values along with
 bracket ends

---
 karta/geodesy.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/karta/geodesy.py b/karta/geodesy.py
index ea2fc67..3fb8ed6 100644
--- a/karta/geodesy.py
+++ b/karta/geodesy.py
@@ -756,6 +756,7 @@ def fzero_brent(a, b, f, tol):
         raise ValueError("root not bracketed")
     if abs(fa) < abs(fb):
         a,b = b,a
+        fa,fb = fb,fa
     c = a
     d = np.nan
     mflag = True
-- 
2.43.0


From 222d3d4f498faf58a4901ab4a25368e0c6a3b191 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:38 +0000
Subject: [PATCH 58/93] fix: ellipsoid of the carthage datum

---
 karta/crs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/karta/crs.py b/karta/crs.py
index 6fe55ce..006f30e 100644
--- a/karta/crs.py
+++ b/karta/crs.py
@@ -27,7 +27,7 @@ osgeo.osr.UseExceptions()
 
 # proj.4 keys for ellipsoids used by named datum definitions
 DATUM_ELLIPSOIDS = {"WGS84": "WGS84", "GGRS87": "GRS80", "NAD83": "GRS80",
-                    "NAD27": "clrk66", "potsdam": "bessel", "carthage": "clark80",
+                    "NAD27": "clrk66", "potsdam": "bessel", "carthage": "clrk80",
                     "hermannskogel": "bessel", "ire65": "mod_airy",
                     "nzgd49": "intl", "OSGB36": "airy"}
 
-- 
2.43.0


From d3848d86f313be889af93e237bfe98c21d876ecd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:38 +0000
Subject: [PATCH 59/93] fix: ellipsoid parameters are matched by their whole
 name and include +rf

---
 karta/crs.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/karta/crs.py b/karta/crs.py
index 006f30e..0c5891d 100644
--- a/karta/crs.py
+++ b/karta/crs.py
@@ -312,18 +312,25 @@ def parse_ellipsoid(projstring):
                 ellps = DATUM_ELLIPSOIDS[v]
                 ela, elb, elrf, ename = ELLIPSOID_DATA[ellps]
                 break
-    elif ("+a" in projstring) and (("+b" in projstring) or ("+f" in projstring)):
+    elif ("+a=" in projstring) and any(k in projstring for k in ("+b=", "+f=", "+rf=")):
         ename = "Unknown"
         for kv in projstring.split():
-            if kv.startswith("+a"):
+            if kv.startswith("+a="):
                 _, ela = kv.split("=")
                 ela = float(ela)
-            elif kv.startswith("+b"):
+            elif kv.startswith("+b="):
                 _, elb = kv.split("=")
                 elb = float(elb)
-            elif kv.startswith("+f"):
+            elif kv.startswith("+rf="):
+                _, elrf = kv.split("=")
+                elrf = float(elrf)
+            elif kv.startswith("+f="):
                 _, elf = kv.split("=")
-                elrf = 1.0/float(elf)
+                elf = float(elf)
+                if elf != 0.0:
+                    elrf = 1.0/elf
+                else:
+                    elrf = float("inf")
             if ela and (elb or elrf):
                 break
     else:
-- 
2.43.0


From b0c3017350e946c412e49f0b1adc3b117997b7b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:06 +0000
Subject: [PATCH 60/93] fix: R-tree propagates splits through the node that was
 split

---
 karta/vector/rtree.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/karta/vector/rtree.h b/karta/vector/rtree.h
index bc07fe2..8fbb44c 100644
--- a/karta/vector/rtree.h
+++ b/karta/vector/rtree.h
@@ -299,16 +299,16 @@ int rt_adjust_tree(Node *node, Node *sibling, Node **outnode, Node **outsibling)
 
         // if sibling provided, add it to parent
         if (sibling != NULL) {
-            addretval = add_node(node->parent, sibling);
+            addretval = add_node(parent, sibling);
             if (addretval == 1) {
-                sibling = rt_split(node->parent);
+                sibling = rt_split(parent);
             } else {
                 sibling = NULL;
             }
         }
 
         // propagate upward
-        node = node->parent;
+        node = parent;
     }
 
     if (sibling != NULL) {
-- 
2.43.0


From cf32b331cb52af6b5e4cc7c553e9879378cfac34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:06 +0000
Subject: [PATCH 61/93] fix: from_geotiffs checks that the files share a
 geotransform and accepts in_memory

---
 karta/raster/read.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/karta/raster/read.py b/karta/raster/read.py
index 28fce94..af78bcd 100644
--- a/karta/raster/read.py
+++ b/karta/raster/read.py
@@ -77,20 +77,21 @@ def from_geotiffs(*fnms, **kw):
         if in_memory is True, this parameter is ignored and the returned grid
         will have bands of type karta.raster._gdal.GdalFileBand
     """
-    in_memory = kw.get("in_memory", True)
+    in_memory = kw.pop("in_memory", True)
     if len(fnms) == 0:
         raise ValueError("at least one filename must be provided")
     bands = []
     hdrs = []
     for i, fnm in enumerate(fnms):
         _b, _h = _gdal.read(fnm, in_memory, 1, **kw)
-        if (i != 0) and (len(hdrs) != 0):
-            for k, v in _h.items():
-                if (isinstance(v, float)
-                        and np.isnan(v) and not np.isnan(hdrs[-1].get(k, 0))):
-                    if v != hdrs[-1].get(k, np.nan):
-                        raise GridError("geotransform in {0} not equivalent to "
-                                        "a previous GeoTiff".format(fnm))
+        if len(hdrs) != 0:
+            for k in ("nx", "ny", "xulcorner", "yulcorner", "dx", "dy", "sx", "sy"):
+                if _h[k] != hdrs[-1][k]:
+                    raise GridError("geotransform in {0} not equivalent to "
+                                    "a previous GeoTiff".format(fnm))
+            if _h["srs"]["proj4"] != hdrs[-1]["srs"]["proj4"]:
+                raise GridError("coordinate system in {0} not equivalent to "
+                                "a previous GeoTiff".format(fnm))
         bands.append(_b[0])
         hdrs.append(_h)
 
-- 
2.43.0


From 2de7d7649c43f8b4491fc425c8b9a1652fe8b401 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:06 +0000
Subject: [PATCH 62/93] fix: from_geotiffs of files without a coordinate system

---
 karta/raster/read.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/karta/raster/read.py b/karta/raster/read.py
index af78bcd..ae67b60 100644
--- a/karta/raster/read.py
+++ b/karta/raster/read.py
@@ -103,7 +103,10 @@ def from_geotiffs(*fnms, **kw):
          'sx'       : -hdr['sx'],
          'sy'       : hdr['sy']}
 
-    if proj4_isgeodetic(hdr["srs"]["proj4"]):
+    if len(hdr["srs"]["proj4"]) == 0:
+        # invalid or missing SRS information
+        crs = Cartesian
+    elif proj4_isgeodetic(hdr["srs"]["proj4"]):
         geodstr = "+a={a} +f={f}".format(a=hdr["srs"]["semimajor"],
                                          f=hdr["srs"]["flattening"])
         crs = GeographicalCRS(geodstr, name=hdr["srs"]["name"])
-- 
2.43.0


From cd392d937b0eaed7957fb9f23729e50eeb6ee2df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:06 +0000
Subject: [PATCH 63/93] fix: disk-based bands report their type as other bands
 do

---
 karta/raster/_gdal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/karta/raster/_gdal.py b/karta/raster/_gdal.py
index 9cbff8b..9078831 100644
--- a/karta/raster/_gdal.py
+++ b/karta/raster/_gdal.py
@@ -54,7 +54,7 @@ class GdalFileBand(object):
 
     @property
     def dtype(self):
-        return np.dtype(numpy_dtype(self.gdalband.DataType))
+        return numpy_dtype(self.gdalband.DataType)
 
 def SRS_from_WKT(s):
     """ Return Proj.4 string, semimajor axis, and flattening """
-- 
2.43.0


From 09b6afe930c839bbce02b4c4e5e0978539e4ee49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:08:45 +0000
Subject: [PATCH 64/93] fix: sample_bilinear of points all on the first row or
 column of centers

---
 karta/raster/grid.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/karta/raster/grid.py b/karta/raster/grid.py
index 433a5b1..a95bbde 100644
--- a/karta/raster/grid.py
+++ b/karta/raster/grid.py
@@ -934,9 +934,9 @@ class RegularGrid(Grid):
         # compute only the region necessary
         if len(I) != 1:
             Imn = int(np.floor(I.min())-1)
-            Imx = int(np.ceil(I.max()+1))
+            Imx = int(np.floor(I.max())+2)
             Jmn = int(np.floor(J.min())-1)
-            Jmx = int(np.ceil(J.max()+1))
+            Jmx = int(np.floor(J.max())+2)
 
             Imn = max(Imn, 0)
             Jmn = max(Jmn, 0)
-- 
2.43.0


From fcc5268ca0fabe022df39eccd9e899ac1ec62049 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:24:33 +0000
Subject: [PATCH 65/93] fix: GeoTIFF data is on disk when the writer returns

---
 karta/raster/_gdal.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/karta/raster/_gdal.py b/karta/raster/_gdal.py
index 9078831..a8ee572 100644
--- a/karta/raster/_gdal.py
+++ b/karta/raster/_gdal.py
@@ -246,6 +246,7 @@ def write(fnm, grid, compress=None, tiled=False, **kw):
         band.SetNoDataValue(grid.nodata)
         band.WriteArray(grid[::-1,:,i])
 
+    dataset.FlushCache()
     band = None
     dataset = None
     return grid
-- 
2.43.0


From 532a13b435b93fe7bf68f7d8d449d4b9d7e8eab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:24 +0000
Subject: [PATCH 66/93] fix: slices of geometries follow Python slicing

---
 karta/vector/geometry.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/karta/vector/geometry.py b/karta/vector/geometry.py
index e9e5d36..20d02b2 100644
--- a/karta/vector/geometry.py
+++ b/karta/vector/geometry.py
@@ -378,8 +378,7 @@ class MultiVertexBase(Geometry):
         if isinstance(key, (int, np.int64)):
             return Point(self._vertices[key], properties=self.properties, crs=self.crs)
         elif isinstance(key, slice):
-            start, stop, stride = key.indices(len(self._vertices))
-            verts = self._vertices.slice(start, stop, stride)
+            verts = CoordString(self._vertices.asarray()[key])
             return type(self)(verts, properties=self.properties, crs=self.crs)
         else:
             raise KeyError('index must be integer or slice object')
@@ -1006,7 +1005,7 @@ class Polygon(MultiVertexBase, Rotatable, ConnectedMultiVertexMixin, GeoJSONOutM
         if isinstance(key, slice):
             start, stop, stride = key.indices(len(self._vertices))
             if len(self) != ((stop - start) // stride):
-                return Line(self._vertices.slice(start, stop, stride),
+                return Line(CoordString(self._vertices.asarray()[key]),
                             properties=self.properties,
                             crs=self.crs)
         return super(Polygon, self).__getitem__(key)
@@ -1280,8 +1279,7 @@ class Multipoint(Multipart, Rotatable, MultiVertexMixin, GeoJSONOutMixin, Shapef
             p.update(self.properties)
             return Point(self._vertices[key], properties=p, crs=self.crs)
         elif isinstance(key, slice):
-            start, stop, stride = key.indices(len(self._vertices))
-            return Multipoint(self._vertices.slice(start, stop, stride),
+            return Multipoint(CoordString(self._vertices.asarray()[key]),
                               properties=self.properties,
                               data=self.d[key], crs=self.crs)
         else:
-- 
2.43.0


From 62a886b788ef9a5a9bcc299cafb0a56fe69457d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:24 +0000
Subject: [PATCH 67/93] fix: equality and hashing of multiline and multipolygon
 geometries

---
 karta/vector/geometry.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/karta/vector/geometry.py b/karta/vector/geometry.py
index 20d02b2..dc7bf9b 100644
--- a/karta/vector/geometry.py
+++ b/karta/vector/geometry.py
@@ -1206,8 +1206,8 @@ class Multipart(Geometry):
     def __eq__(self, other):
         try:
             return (self._geotype == other._geotype) and \
-                   (len(self._vertices) == len(other._vertices)) and \
-                   np.all(np.equal(self._vertices, other._vertices)) and \
+                   (_as_nested_lists(self._vertices) ==
+                    _as_nested_lists(other._vertices)) and \
                    (self.data == other.data) and \
                    (self.properties == other.properties) and \
                    (self.crs == other.crs)
@@ -1219,7 +1219,7 @@ class Multipart(Geometry):
 
     def __hash__(self):
         ht = hash(self._geotype)
-        hd = hash(self._vertices.asarray().tostring())
+        hd = hash(str(_as_nested_lists(self._vertices)))
         hc = hash(str(self.crs))
         return ht + (hd << 1) + hd + hc
 
-- 
2.43.0


From 6953ec8648b5e5b9f9cab5eb7e49b4438751c171 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:24 +0000
Subject: [PATCH 68/93] fix: affine transforms of polygons keep sub-polygons

---
 karta/vector/geometry.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/karta/vector/geometry.py b/karta/vector/geometry.py
index dc7bf9b..b5d2a58 100644
--- a/karta/vector/geometry.py
+++ b/karta/vector/geometry.py
@@ -536,6 +536,9 @@ class MultiVertexMixin(object):
 
         if hasattr(self, "data"):
             return type(self)(new_xy, properties=self.properties, data=self.data, crs=self.crs)
+        elif hasattr(self, "subs"):
+            return type(self)(new_xy, subs=[sub.apply_transform(M) for sub in self.subs],
+                              properties=self.properties, crs=self.crs)
         else:
             return type(self)(new_xy, properties=self.properties, crs=self.crs)
 
-- 
2.43.0


From f22ae37f004ec0b27d26dd9dcff8342afa2363c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:24 +0000
Subject: [PATCH 69/93] fix: GeoJSON output in the coordinate system of the
 geometry

---
 karta/vector/_geojson.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/karta/vector/_geojson.py b/karta/vector/_geojson.py
index 7e784ac..ef9dd34 100644
--- a/karta/vector/_geojson.py
+++ b/karta/vector/_geojson.py
@@ -40,7 +40,7 @@ class GeoJSONOutMixin(object):
         if kwargs.get("urn", None) is not None:
             crs = crs_from_urn(kwargs["urn"])
         else:
-            crs = crs_from_karta(geoms[0].crs)
+            crs = crs_from_karta(geom.crs)
 
         if geom._geotype == "Point":
             g = picogeojson.Point(geom.vertex(), crs)
-- 
2.43.0


From 85010104a563f70463e4b5f7e69a970b3aab0394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:24 +0000
Subject: [PATCH 70/93] fix: GeoJSON output leaves the properties of the
 geometry alone

---
 karta/vector/_geojson.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/karta/vector/_geojson.py b/karta/vector/_geojson.py
index ef9dd34..a31e8a7 100644
--- a/karta/vector/_geojson.py
+++ b/karta/vector/_geojson.py
@@ -65,7 +65,7 @@ class GeoJSONOutMixin(object):
             for field in geom.data.fields:
                 data[field] = geom.d[field]
 
-        properties = geom.properties
+        properties = dict(geom.properties)
         properties.update(data)
         return picogeojson.Feature(g, properties, None, g.crs)
 
-- 
2.43.0


From 2933207c22f0611d2f19b181dcaf4c6d0e549be9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:24 +0000
Subject: [PATCH 71/93] fix: GeoJSON output in WGS84 keeps sub-polygons

---
 karta/vector/_geojson.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/karta/vector/_geojson.py b/karta/vector/_geojson.py
index a31e8a7..cdb73fe 100644
--- a/karta/vector/_geojson.py
+++ b/karta/vector/_geojson.py
@@ -91,6 +91,9 @@ class GeoJSONOutMixin(object):
             kw = dict(properties=self.properties, crs=LonLatWGS84)
             if hasattr(self, "data"):
                 kw["data"] = self.data
+            if hasattr(self, "subs"):
+                kw["subs"] = [type(sub)(sub.vertices(crs=LonLatWGS84), crs=LonLatWGS84)
+                              for sub in self.subs]
             if hasattr(self, "vertices"):
                 vertices = self.vertices(crs=LonLatWGS84)
             else:
-- 
2.43.0


From ff390f4df1aeb7c24bf25d0f73db4b4584da33f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:24 +0000
Subject: [PATCH 72/93] fix: sub-polygons read from GeoJSON are polygons

---
 karta/vector/read.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/karta/vector/read.py b/karta/vector/read.py
index 05411a2..d201649 100644
--- a/karta/vector/read.py
+++ b/karta/vector/read.py
@@ -88,9 +88,9 @@ def read_geojson(f, crs=LonLatWGS84):
             kw.setdefault("data", {})
             kw["properties"].update(kw["data"])
             del kw["data"]
-            return geometry.Polygon(geom.coordinates[0],
-                                    subs=geom.coordinates[1:],
-                                    **kw)
+            subs = [geometry.Polygon(ring, crs=kw.get("crs"))
+                    for ring in geom.coordinates[1:]]
+            return geometry.Polygon(geom.coordinates[0], subs=subs, **kw)
         elif isinstance(geom, picogeojson.MultiPoint):
             return geometry.Multipoint(geom.coordinates, **kw)
         elif isinstance(geom, picogeojson.MultiLineString):
-- 
2.43.0


From 4629b31251fed81ad37ce68ed4917008894ee712 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:04:02 +0000
Subject: [PATCH 73/93] fix: intersects: order segments exactly where they
 share an endpoint

---
 karta/vector/intersection.pyx | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/karta/vector/intersection.pyx b/karta/vector/intersection.pyx
index 8b57799..eec4ed1 100644
--- a/karta/vector/intersection.pyx
+++ b/karta/vector/intersection.pyx
@@ -140,7 +140,11 @@ class SweepLinePlaceholder(object):
             if seg[3] == seg[1]:
                 return m, seg[1]
             m = (seg[3]-seg[1]) / (seg[2]-seg[0])
-            h = m*(x-seg[0]) + seg[1]
+            # avoid round-off at the ends, which may be shared by segments
+            if x == seg[2]:
+                h = seg[3]
+            else:
+                h = m*(x-seg[0]) + seg[1]
         return m, h
 
     def insert(self, tuple item, double x):
-- 
2.43.0


From a91d9d8d1ad06bcf0866dc015decd363db6c18be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:05:42 +0000
Subject: [PATCH 74/93] fix: vertices(crs) of geometries with a third dimension

---
 karta/vector/geometry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/karta/vector/geometry.py b/karta/vector/geometry.py
index b5d2a58..49e838e 100644
--- a/karta/vector/geometry.py
+++ b/karta/vector/geometry.py
@@ -421,7 +421,7 @@ class MultiVertexMixin(object):
                 return self._vertices.asarray()[:,:2]
         else:
             v = self._vertices.vectors(drop_z=drop_z)
-            vt = _reproject(v[:2], self.crs, crs)
+            vt = list(_reproject(v[:2], self.crs, crs))
             if len(v) == 3:
                 vt.append(v[2])
             return np.vstack(vt).T
-- 
2.43.0


From 49f80a396f3247e8ed9a1f0c963fd73f4443d878 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:05:42 +0000
Subject: [PATCH 75/93] fix: GeoJSON rings of sub-polygons are closed

---
 karta/vector/_geojson.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/karta/vector/_geojson.py b/karta/vector/_geojson.py
index cdb73fe..d411f3b 100644
--- a/karta/vector/_geojson.py
+++ b/karta/vector/_geojson.py
@@ -49,7 +49,7 @@ class GeoJSONOutMixin(object):
         elif geom._geotype == "Polygon":
             verts = [_as_nested_lists(geom.vertices_ring)]
             for sub in geom.subs:
-                verts.append(_as_nested_lists(sub.vertices()))
+                verts.append(_as_nested_lists(sub.vertices_ring))
             g = picogeojson.Polygon(verts, crs)
         elif geom._geotype == "Multipoint":
             g = picogeojson.MultiPoint(_as_nested_lists(geom.vertices()), crs)
-- 
2.43.0


From 412763194687d4e6409a941c56a70c5ba0516204 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:06:34 +0000
Subject: [PATCH 76/93] fix: GeoJSON string properties are not member data

---
 karta/vector/read.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/karta/vector/read.py b/karta/vector/read.py
index d201649..633fce1 100644
--- a/karta/vector/read.py
+++ b/karta/vector/read.py
@@ -108,12 +108,9 @@ def read_geojson(f, crs=LonLatWGS84):
                                       picogeojson.MultiPolygon)):
             n = len(feat.geometry.coordinates)
             for k, v in feat.properties.items():
-                try:
-                    if len(v) == n:
-                        data[k] = v
-                    else:
-                        properties[k] = v
-                except TypeError:
+                if isinstance(v, (list, tuple)) and len(v) == n:
+                    data[k] = v
+                else:
                     properties[k] = v
         else:
             properties.update(feat.properties)
-- 
2.43.0


From d3259f9db6402225f2cd2b93a8092f8de5fcb0cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:33 +0000
Subject: [PATCH 77/93] fix: shapefiles are complete on disk when writing
 returns

---
 karta/vector/_shp.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/karta/vector/_shp.py b/karta/vector/_shp.py
index 4e3d21f..9226541 100644
--- a/karta/vector/_shp.py
+++ b/karta/vector/_shp.py
@@ -246,6 +246,9 @@ def ogr_write(fnm, *objs):
     # add geometries
     for i, obj in enumerate(objs):
         ogr_write_feature(lyr, obj, id=i, key_mapping=key_mapping)
+    ds.FlushCache()
+    del lyr
+    ds.Destroy()
     return
 
 def infer_field_type(objs, key, max_iter=100):
-- 
2.43.0


From 80b45a88b43fad4b864fd9c72d1690144bd082cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:33 +0000
Subject: [PATCH 78/93] fix: Multipolygons are written to shapefiles as
 polygons

---
 karta/vector/_shp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/karta/vector/_shp.py b/karta/vector/_shp.py
index 9226541..7a74bda 100644
--- a/karta/vector/_shp.py
+++ b/karta/vector/_shp.py
@@ -335,7 +335,7 @@ def ogr_asMultiLineString(gi):
     return geom
 
 def ogr_asMultiPolygon(gi):
-    geom = ogr.Geometry(5)
+    geom = ogr.Geometry(6)
     for polygon in gi["coordinates"]:
         ogr_polygon = ogr.Geometry(3)
         for ring in polygon:
-- 
2.43.0


From 6f76cc03c1b5181cecd28a2157f60dd683df127a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:33 +0000
Subject: [PATCH 79/93] fix: GPX waypoints can be read

---
 karta/vector/_gpx.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/karta/vector/_gpx.py b/karta/vector/_gpx.py
index 598a4a7..856307b 100644
--- a/karta/vector/_gpx.py
+++ b/karta/vector/_gpx.py
@@ -151,10 +151,8 @@ class GPX(object):
         return
 
     def parse_wpt(self, wpt):
-        """ Parse a <wpt> node, updating self.waypoints. """
-        point = self._readwpt(wpt)
-        name = wpt.properties.get("name", "waypoint_" + str(len(self.waypoints)))
-        self.waypoints[name] = point
+        """ Parse a <wpt> node, updating self.waypts. """
+        self.waypts.append(self._readwpt(wpt))
         return
 
     def parse_trk(self, trk):
-- 
2.43.0


From e1f49b98a379fd7cff712a924d5a053b123a68ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:33 +0000
Subject: [PATCH 80/93] fix: GPX routes with point data

---
 karta/vector/_gpx.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/karta/vector/_gpx.py b/karta/vector/_gpx.py
index 856307b..3deaf7f 100644
--- a/karta/vector/_gpx.py
+++ b/karta/vector/_gpx.py
@@ -278,7 +278,7 @@ class GPX(object):
             prop = {}
             if route.data is not None:
                 for k in route.data.fields:
-                    prop[k] = route.data[k][i]
+                    prop[k] = route.d[k][i]
             points.append(Point((vertex[0], vertex[1]), prop, {}))
         self.routes.append(Route(points, route.properties, {}))
         return
-- 
2.43.0


From 2ecf6c187a2ceca9b4e45a6b6b9e8bcdc777aa8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:08:17 +0000
Subject: [PATCH 81/93] fix: shapefile attributes keep the fraction of real
 numbers

---
 karta/vector/_shp.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/karta/vector/_shp.py b/karta/vector/_shp.py
index 7a74bda..f48a23e 100644
--- a/karta/vector/_shp.py
+++ b/karta/vector/_shp.py
@@ -238,6 +238,9 @@ def ogr_write(fnm, *objs):
         if typ is not None:
             fd = ogr.FieldDefn(dbase_key, typ)
             fd.SetWidth(default_width)
+            if typ == ogr.OFTReal:
+                # without a precision the driver stores whole numbers
+                fd.SetPrecision(15)
             lyr.CreateField(fd)
             key_mapping[dbase_key] = k
         else:
-- 
2.43.0


From 636418169a90427739155243c257d9cb78b196f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:09:24 +0000
Subject: [PATCH 82/93] fix: GPX extensions are not read as a property

---
 karta/vector/_gpx.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/karta/vector/_gpx.py b/karta/vector/_gpx.py
index 3deaf7f..63ffff6 100644
--- a/karta/vector/_gpx.py
+++ b/karta/vector/_gpx.py
@@ -158,13 +158,13 @@ class GPX(object):
     def parse_trk(self, trk):
         """ Parse a <trk> node, updating self.tracks. """
         segments = []
-        trkproperties = self._readproperties(trk, exclude=("trkseg",))
+        trkproperties = self._readproperties(trk, exclude=("trkseg", "extensions"))
         trkextensions = self._readextensions(trk)
 
         for trkseg in trk.findall(ns + "trkseg"):
 
             points = [self._readwpt(trkpt) for trkpt in trkseg.findall(ns + "trkpt")]
-            properties = self._readproperties(trkseg, exclude=("trkpt",))
+            properties = self._readproperties(trkseg, exclude=("trkpt", "extensions"))
             extensions = self._readextensions(trkseg)
             segments.append(Trkseg(points, properties, extensions))
 
@@ -172,7 +172,7 @@ class GPX(object):
         return
 
     def parse_rte(self, rte):
-        properties = self._readproperties(rte, exclude=("rtept",))
+        properties = self._readproperties(rte, exclude=("rtept", "extensions"))
         extensions = self._readextensions(rte)
         points = [self._readwpt(rtept) for rtept in rte.findall(ns + "rtept")]
         self.routes.append(Route(points, properties, extensions))
-- 
2.43.0


From 256bd1e313847a997b7c05f04584252cca251368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:10:57 +0000
Subject: [PATCH 83/93] fix: the geo interface of Multiline and Multipolygon
 keeps the properties

---
 karta/vector/geometry.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/karta/vector/geometry.py b/karta/vector/geometry.py
index 49e838e..34964d0 100644
--- a/karta/vector/geometry.py
+++ b/karta/vector/geometry.py
@@ -1608,7 +1608,8 @@ class Multiline(Multipart, MultiVertexMultipartMixin, GeoJSONOutMixin,
 
     @property
     def __geo_interface__(self):
-        p = dict(_karta_proj4=self.crs.get_proj4())
+        p = self.properties.copy()
+        p["_karta_proj4"] = self.crs.get_proj4()
         return {"type": "Feature",
                 "geometry": self.geomdict,
                 "properties": p}
@@ -1737,7 +1738,8 @@ class Multipolygon(Multipart, MultiVertexMultipartMixin, GeoJSONOutMixin,
 
     @property
     def __geo_interface__(self):
-        p = dict(_karta_proj4=self.crs.get_proj4())
+        p = self.properties.copy()
+        p["_karta_proj4"] = self.crs.get_proj4()
         return {"type": "Feature",
                 "geometry": self.geomdict,
                 "properties": p}
-- 
2.43.0


From 4321b29062183d518f4f88ed1efa2de285edb37f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:48 +0000
Subject: [PATCH 84/93] fix: grid positions when the row resolution is zero (a
 grid turned by 90 degrees)

---
 karta/raster/crfuncs.pyx | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/karta/raster/crfuncs.pyx b/karta/raster/crfuncs.pyx
index cc0de43..1ae836b 100644
--- a/karta/raster/crfuncs.pyx
+++ b/karta/raster/crfuncs.pyx
@@ -26,7 +26,10 @@ def get_positions_vec(tuple T, double[:] x not None, double[:] y not None):
     sy = T[5]
     while i != n:
         j_ = (dy*x[i] - dy*x0 + sx*y0 - sx*y[i]) / (dx*dy - sx*sy)
-        i_ = (y[i] - y0 - j_*sy) / dy
+        if dy != 0:
+            i_ = (y[i] - y0 - j_*sy) / dy
+        else:
+            i_ = (x[i] - x0 - j_*dx) / sx
         J[i] = j_ - 0.5
         I[i] = i_ - 0.5
         i += 1
-- 
2.43.0


From 48223632439937d18342e0c0eb14cb50f124ed62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:48 +0000
Subject: [PATCH 85/93] fix: masking a grid whose column or row resolution is
 zero (a grid turned by 90 degrees)

---
 karta/raster/grid.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/karta/raster/grid.py b/karta/raster/grid.py
index a95bbde..2d09e4d 100644
--- a/karta/raster/grid.py
+++ b/karta/raster/grid.py
@@ -1356,8 +1356,9 @@ def mask_poly(xpoly, ypoly, nx, ny, transform):
         tb = tb + ny*td
         td = -td
 
-    i0 = int(round((y0-tb - tf/tc*(x0-ta)) / (td - tf*te/tc)))
-    j0 = int(round((x0-ta - te/td*(y0-tb)) / (tc - te*tf/td)))
+    det = tc*td - te*tf
+    i0 = int(round((tc*(y0-tb) - tf*(x0-ta)) / det))
+    j0 = int(round((td*(x0-ta) - te*(y0-tb)) / det))
 
     for el in range(1, len(xpoly)+1):
         idx = (el + i_bot) % len(xpoly)
@@ -1365,15 +1366,15 @@ def mask_poly(xpoly, ypoly, nx, ny, transform):
         y1 = ypoly[idx]
 
         # (Unbounded) grid indices of the segment end points
-        i1 = int(round((y1-tb - tf/tc*(x1-ta)) / (td - tf*te/tc)))
-        j1 = int(round((x1-ta - te/td*(y1-tb)) / (tc - te*tf/td)))
+        i1 = int(round((tc*(y1-tb) - tf*(x1-ta)) / det))
+        j1 = int(round((td*(x1-ta) - te*(y1-tb)) / det))
 
         # If segment is along a row, ignore
         if i1 != i0:
 
             # columns crossed per row is dj/di
-            dj = (x1-x0) - te/td*(y1-y0)
-            di = ((y1-y0) - tf/tc*(x1-x0)) * (tc/td)
+            dj = td*(x1-x0) - te*(y1-y0)
+            di = tc*(y1-y0) - tf*(x1-x0)
 
             if i1 > i0:     # upward - mark grid cells to the right
 
-- 
2.43.0


From 2cc915eb00b8868ec64f1f30754361e98302f87c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:49:55 +0000
Subject: [PATCH 86/93] fix: areas of geographical polygons across the equator
 or the dateline

---
 karta/geodesy.py | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/karta/geodesy.py b/karta/geodesy.py
index 3fb8ed6..88dd39d 100644
--- a/karta/geodesy.py
+++ b/karta/geodesy.py
@@ -108,11 +108,9 @@ def sphere_azimuth(lon1, lat1, lon2, lat2):
 
 def spherical_area(r, x1, y1, x2, y2):
     """ Area between a geodesic and the equator on a sphere """
-    if x2 < x1:
-        reverse = -1
-    else:
-        reverse = 1
-    _, x1, y1, x2, y2 = _canonical_configuration(x1, y1, x2, y2)
+    tr, x1, y1, x2, y2 = _canonical_configuration(x1, y1, x2, y2)
+    # areas south of the equator and areas swept westward are of opposite sign
+    reverse = 1 if tr["xflip"] == tr["ysignswap"] else -1
     phi1 = _radians(y1)
     phi2 = _radians(y2)
     lambda12 = _radians(x2-x1)
@@ -708,11 +706,9 @@ def ellipsoidal_area(a, b, x1, y1, x2, y2):
         latitude of geodesic segment end
 
     """
-    if x2 < x1:
-        reverse = -1
-    else:
-        reverse = 1
-    _, x1, y1, x2, y2 = _canonical_configuration(x1, y1, x2, y2)
+    tr, x1, y1, x2, y2 = _canonical_configuration(x1, y1, x2, y2)
+    # areas south of the equator and areas swept westward are of opposite sign
+    reverse = 1 if tr["xflip"] == tr["ysignswap"] else -1
     phi1 = y1*pi/180.0
     phi2 = y2*pi/180.0
     lambda12 = (x2-x1)*pi/180.0
-- 
2.43.0


From 7d8ce2182d42cc4229acfb551cf7eb817dff4343 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:47 +0000
Subject: [PATCH 87/93] fix: resize takes blocks of one size from the old and
 the new grid

The ends of the copied block were rounded separately on both grids, so a box
half a cell off could give blocks of different sizes where the quotient is
subject to rounding, and resize raised a ValueError.
---
 karta/raster/grid.py | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/karta/raster/grid.py b/karta/raster/grid.py
index 2d09e4d..8fc62b3 100644
--- a/karta/raster/grid.py
+++ b/karta/raster/grid.py
@@ -592,17 +592,17 @@ class RegularGrid(Grid):
         nynew = int(_round((bbnew[3]-bbnew[1])/dy))
         Tnew = [bbnew[0], bbnew[1], dx, dy, sx, sy]
 
-        # determine the indices of existing data on the new grid
-        j0new = max(0,     int(_round((bb[0]-bbnew[0])/dx)))
-        j1new = min(nxnew, int(_round((bb[2]-bbnew[0])/dx)))
-        i0new = max(0,     int(_round((bb[1]-bbnew[1])/dy)))
-        i1new = min(nynew, int(_round((bb[3]-bbnew[1])/dy)))
-
-        # determine the indices of the data to copy on the old grid
-        j0 = max(0,  int(_round((bbnew[0]-bb[0])/dx)))
-        j1 = min(nx, int(_round((bbnew[2]-bb[0])/dx)))
-        i0 = max(0,  int(_round((bbnew[1]-bb[1])/dy)))
-        i1 = min(ny, int(_round((bbnew[3]-bb[1])/dy)))
+        # determine the offset between the old and the new grid, and from it the
+        # indices of existing data on the new grid and on the old one
+        def _offset(a):
+            return int(_round(a)) if a >= 0 else -int(_round(-a))
+
+        joff = _offset((bbnew[0]-bb[0])/dx)
+        ioff = _offset((bbnew[1]-bb[1])/dy)
+        j0, j0new = max(0, joff), max(0, -joff)
+        i0, i0new = max(0, ioff), max(0, -ioff)
+        j1 = j0 + min(nx-j0, nxnew-j0new)
+        i1 = i0 + min(ny-i0, nynew-i0new)
 
         newbands = []
         for band in self.bands:
-- 
2.43.0


From f18848daa29008cd2bdc0107279aecb67b56abe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:57:24 +0000
Subject: [PATCH 88/93] fix: spherical distance to the antipode no longer
 leaves the domain of acos

---
 karta/geodesy.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/karta/geodesy.py b/karta/geodesy.py
index 88dd39d..2d950ba 100644
--- a/karta/geodesy.py
+++ b/karta/geodesy.py
@@ -93,7 +93,8 @@ def sphere_distance(lon1, lat1, lon2, lat2, radius=1.0):
 
     if dx > 0.01 or dy > 0.01:
         # use spherical law of cosines
-        d_ = acos(sin(lat1) * sin(lat2) + cos(lat1) * cos(lat2) * cos(dx))
+        d_ = acos(max(-1.0, min(1.0, sin(lat1) * sin(lat2)
+                                     + cos(lat1) * cos(lat2) * cos(dx))))
 
     else:
         # use haversine
-- 
2.43.0


From b0ee91f7f71a288065cdaffecf8e03afe6df6393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:57:24 +0000
Subject: [PATCH 89/93] fix: profile samples at a positive spacing on grids
 with negative or rotated axes

---
 karta/raster/grid.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/karta/raster/grid.py b/karta/raster/grid.py
index 8fc62b3..357ca17 100644
--- a/karta/raster/grid.py
+++ b/karta/raster/grid.py
@@ -1060,7 +1060,9 @@ class RegularGrid(Grid):
             grid value at sample points
         """
         if resolution is None:
-            resolution = min(self.transform[2:4])
+            # the shorter of the steps to the next column and row
+            dx, dy, sx, sy = self.transform[2:]
+            resolution = min(math.hypot(dx, sy), math.hypot(dy, sx))
         points = line.to_points(resolution)
         z = self.sample(*points.coords(crs=self.crs), **kw)
         if len(self.bands) != 1:
-- 
2.43.0


From ab23c79b8e8f49064801159fd32d0aae33bee535 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:57:24 +0000
Subject: [PATCH 90/93] fix: divergence respects missing cells and unsigned
 integers

---
 karta/raster/misc.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/karta/raster/misc.py b/karta/raster/misc.py
index 7dd2140..4099c80 100644
--- a/karta/raster/misc.py
+++ b/karta/raster/misc.py
@@ -123,10 +123,10 @@ def divergence(grid, bands=(0, 1)):
     """
     if grid.skew != (0, 0):
         raise NotImplementedError("divergence calculations not implemented on skewed grids")
-    return RegularGrid(grid.transform,
-                       _div(grid[:,:,bands[0]],
-                            grid[:,:,bands[1]],
-                            grid.resolution),
+    mask = grid.data_mask_full
+    U, V = [np.where(mask[:,:,b], grid[:,:,b].astype(np.float64), np.nan)
+            for b in bands]
+    return RegularGrid(grid.transform, _div(U, V, grid.resolution),
                        crs=grid.crs, nodata_value=np.nan)
 
 def _normed_potential_vectors(D, res=(1.0, 1.0)):
-- 
2.43.0


From 0736de0e445ef1654b7926329d680e3f8ec07971 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:57:24 +0000
Subject: [PATCH 91/93] fix: missing text attributes of a shapefile are read as
 missing

---
 karta/vector/_shp.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/karta/vector/_shp.py b/karta/vector/_shp.py
index f48a23e..0403597 100644
--- a/karta/vector/_shp.py
+++ b/karta/vector/_shp.py
@@ -168,7 +168,8 @@ def ogr_read_attributes(lyr):
         p = {}
         for j, (fn, t) in enumerate(zip(fieldnames, fieldtypes)):
             try:
-                p[fn] = t(lyr.GetFeature(i).GetField(j))
+                value = lyr.GetFeature(i).GetField(j)
+                p[fn] = None if value is None else t(value)
             except TypeError:
                 p[fn] = None
             except UnicodeDecodeError:
-- 
2.43.0


From ad72fe76af267e97e2c6e8f1d48c11227c2828a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:57:24 +0000
Subject: [PATCH 92/93] fix: an attribute named id can be written to a
 shapefile

---
 karta/vector/_shp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/karta/vector/_shp.py b/karta/vector/_shp.py
index 0403597..22caca6 100644
--- a/karta/vector/_shp.py
+++ b/karta/vector/_shp.py
@@ -229,7 +229,7 @@ def ogr_write(fnm, *objs):
 
         dbase_key = str(k)[:10].upper()
         i = 2
-        while dbase_key in key_mapping:
+        while dbase_key in key_mapping or dbase_key == "ID":
             dbase_key = "{}{}".format(dbase_key[:-len(str(i))], str(i))
             warnings.warn("attribute name clash: {} renamed {}"\
                           .format(k, dbase_key))
-- 
2.43.0


From d2f592adc3efcd42cabac9443ce21645f7120de7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:57:24 +0000
Subject: [PATCH 93/93] fix: whole numbers ahead of reals no longer truncate a
 shapefile attribute

---
 karta/vector/_shp.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/karta/vector/_shp.py b/karta/vector/_shp.py
index 22caca6..ea5fbd4 100644
--- a/karta/vector/_shp.py
+++ b/karta/vector/_shp.py
@@ -262,12 +262,22 @@ def infer_field_type(objs, key, max_iter=100):
     while i != min(max_iter, len(objs)):
         try:
             typ, default_width = ogr_get_fieldtype(objs[i]["properties"][key])
+            if typ == ogr.OFTInteger and any(
+                    _isreal(obj["properties"][key]) for obj in objs[i+1:]):
+                # an integer field would drop the fractions
+                typ = ogr.OFTReal
             break
         except TypeError:
             pass
         i += 1
     return typ, default_width
 
+def _isreal(val):
+    try:
+        return ogr_get_fieldtype(val)[0] == ogr.OFTReal
+    except TypeError:
+        return False
+
 def ogr_write_feature(lyr, gi, id=0, key_mapping=None):
     """ Write the geometry encoded in a __geointerface__ dictionary to an OGR
     Layer. """
-- 
2.43.0

