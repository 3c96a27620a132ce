From e57eae22736fe775b0db39447ab53b1be5fa08a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:59:01 +0000
Subject: [PATCH 01/33] fix: count polygon vertices once in
 PolygonBoundaryXZ.outside

A point with exactly the same x as a polygon vertex was counted as crossing
both of the segments that meet there, so e.g. the centre of a diamond was
reported to be outside of it.
---
 zoidberg/boundary.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/zoidberg/boundary.py b/zoidberg/boundary.py
index 406e5e0..f12719d 100644
--- a/zoidberg/boundary.py
+++ b/zoidberg/boundary.py
@@ -131,9 +131,12 @@ class PolygonBoundaryXZ(object):
 
             a = (zp_0 - z_0 + b * (zp_1 - zp_0)) / (z_1 - z_0)
 
-            intersect = np.logical_and(
-                np.logical_and(b >= 0.0, b <= 1.0), np.logical_and(a >= 0.0, a <= 1.0)
-            )
+            # Each segment includes only one of its end points in x. Otherwise a
+            # point with the same x as a vertex would cross both of the
+            # segments which share that vertex.
+            crosses_x = np.logical_xor(xp_0 > x_0, xp_1 > x_0)
+
+            intersect = np.logical_and(crosses_x, np.logical_and(a >= 0.0, a <= 1.0))
 
             # intersect is now true for those points which intersect this line segment
             outside = np.logical_xor(outside, intersect)
-- 
2.43.0


From f4755ced1ded0044103dfecdcbe985e1271e4372 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:59:01 +0000
Subject: [PATCH 02/33] fix: interpolate y towards the upper plane in
 getPoloidalGrid

For a fractional index n + f the y coordinate was y[n] + (1 - f) * dy
instead of y[n] + f * dy; the two only agree at f = 0.5.
---
 zoidberg/grid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zoidberg/grid.py b/zoidberg/grid.py
index ea384eb..86968cb 100644
--- a/zoidberg/grid.py
+++ b/zoidberg/grid.py
@@ -104,7 +104,7 @@ class Grid(object):
             _, yup = self.getPoloidalGrid(floor + 1)
             _, ydown = self.getPoloidalGrid(floor)
             fac = yindex - floor
-            return None, ydown + (yup - ydown) * (1 - fac)
+            return None, ydown + (yup - ydown) * fac
 
         if (yindex >= 0) and (yindex < ny):
             # Within index range, so just return
-- 
2.43.0


From 7a2c7105a907237ee48e239553fec5776838c5aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:59:01 +0000
Subject: [PATCH 03/33] fix: take the periodic gradient of y in Grid.metric

The gradient was taken after selecting the middle copy, so the first and
last dy of a periodic grid were one-sided differences. For non-uniform
spacing dy then did not add up to Ly.
---
 zoidberg/grid.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/zoidberg/grid.py b/zoidberg/grid.py
index 86968cb..b097555 100644
--- a/zoidberg/grid.py
+++ b/zoidberg/grid.py
@@ -182,15 +182,17 @@ class Grid(object):
                 assert has_J < 0, "J only in some slices!"
 
         # Calculate the gradient of the y coordinate w.r.t index
-        # To avoid edge effects, repeat array three times then take the middle
-        ycoords = np.concatenate(
-            (self.ycoords - self.Ly, self.ycoords, self.ycoords + self.Ly)
-        )
         ny = self.ycoords.size
         if ny == 1:
             dy = np.array([self.Ly])
+        elif self.yperiodic:
+            # To avoid edge effects, repeat array three times then take the middle
+            ycoords = np.concatenate(
+                (self.ycoords - self.Ly, self.ycoords, self.ycoords + self.Ly)
+            )
+            dy = np.gradient(ycoords)[ny : (2 * ny)]
         else:
-            dy = np.gradient(ycoords[ny : (2 * ny)])
+            dy = np.gradient(self.ycoords)
 
         dy3d = np.zeros(self.shape)
         dy3d[...] = dy[None, :, None]
-- 
2.43.0


From 081d4f17d8d256ddab8e1606c16f9ec29a593a74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:59:01 +0000
Subject: [PATCH 04/33] fix: zero second derivatives of
 RectangularPoloidalGrid.getCoordinate

dx=2, dz=2 returned the coordinates and dx=dz=1 the first derivative,
but all second and mixed derivatives are zero.
---
 zoidberg/poloidal_grid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zoidberg/poloidal_grid.py b/zoidberg/poloidal_grid.py
index 7a9fb19..95439c8 100644
--- a/zoidberg/poloidal_grid.py
+++ b/zoidberg/poloidal_grid.py
@@ -185,7 +185,7 @@ class RectangularPoloidalGrid(PoloidalGrid):
 
         shape = xind.shape
 
-        if dx + dz > 2:
+        if dx + dz > 1:
             # Second derivatives and mixed derivatives all zero
             return np.zeros(shape), np.zeros(shape)
 
-- 
2.43.0


From c25af47e4717a2f748a25a872f8aaf1d3e7e1c7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:03:34 +0000
Subject: [PATCH 05/33] fix: round z index down in accumulate_interior_stencil

int() truncates towards zero, so a map to -1 < z < 0 (valid since z is
periodic) was interpolated around the wrong cell with a negative offset.
---
 zoidberg/weights.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zoidberg/weights.py b/zoidberg/weights.py
index 031a773..3abc15a 100644
--- a/zoidberg/weights.py
+++ b/zoidberg/weights.py
@@ -449,7 +449,7 @@ def accumulate_interior_stencil(
             continue
 
         x_base = int(mapped_x)
-        z_base = int(mapped_z)
+        z_base = int(np.floor(mapped_z))  # Z is periodic: index may be negative
 
         weights_x = catmull_rom_weights(mapped_x - x_base)
         weights_z = catmull_rom_weights(mapped_z - z_base)
-- 
2.43.0


From 16f9d6ab2428f7370106fdc1fbd642cc9d6342cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:22:43 +0000
Subject: [PATCH 06/33] fix: do not modify the starting points in
 FieldTracerReversible

The positions were aliases of the caller's arrays and updated in place, so
the grid points passed in were overwritten.
---
 zoidberg/fieldtracer.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/zoidberg/fieldtracer.py b/zoidberg/fieldtracer.py
index c59d134..cb9c5e5 100644
--- a/zoidberg/fieldtracer.py
+++ b/zoidberg/fieldtracer.py
@@ -242,8 +242,9 @@ class FieldTracerReversible(object):
         result = np.zeros((len(y_values),) + array_shape + (2,))
 
         # Starting position
-        x_pos = x_values
-        z_pos = z_values
+        # Note: Copy, since these are updated in-place below
+        x_pos = np.array(x_values, dtype=float)
+        z_pos = np.array(z_values, dtype=float)
         y_pos = y_values[0]
 
         result[0, ..., 0] = x_pos
-- 
2.43.0


From dea695e143166b52185f221530f28a2f8d1d53df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:22:43 +0000
Subject: [PATCH 07/33] fix: do not sort the caller's y_slices in
 trace_poincare

---
 zoidberg/fieldtracer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zoidberg/fieldtracer.py b/zoidberg/fieldtracer.py
index cb9c5e5..52f9f61 100644
--- a/zoidberg/fieldtracer.py
+++ b/zoidberg/fieldtracer.py
@@ -369,7 +369,7 @@ def trace_poincare(
                 )
             )
         # Make sure y_slices is monotonically increasing
-        y_slices.sort()
+        y_slices = np.sort(y_slices)
         # If y_slices is given, then nplot is the number of slices
         nplot = len(y_slices)
     else:
-- 
2.43.0


From 32fb76372c4b94e5998d0eb150df1b02967c8585 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:22:43 +0000
Subject: [PATCH 08/33] fix: interpolate between the points in positionPolygon

The remainder of the angle was used as weight without dividing by the
spacing, so the line jumped at every point. Negative angles were rounded
towards zero, and so used the wrong pair of points.
---
 zoidberg/rzline.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/zoidberg/rzline.py b/zoidberg/rzline.py
index ba88c65..6b90f8d 100644
--- a/zoidberg/rzline.py
+++ b/zoidberg/rzline.py
@@ -175,8 +175,10 @@ class RZline:
             return self.R, self.Z
         n = len(self.R)
         dtheta = 2.0 * np.pi / n
-        ind = np.trunc(theta / dtheta).astype(int) % n
-        rem = np.remainder(theta, dtheta)
+        pos = np.asarray(theta) / dtheta
+        # Fraction of the way from point ind to point ind + 1
+        rem = pos - np.floor(pos)
+        ind = np.floor(pos).astype(int) % n
         indp = (ind + 1) % n
         return (rem * self.R[indp] + (1.0 - rem) * self.R[ind]), (
             rem * self.Z[indp] + (1.0 - rem) * self.Z[ind]
-- 
2.43.0


From 389f7f961b237f03a75bc9ac3ea98ee5936b8d7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:22:44 +0000
Subject: [PATCH 09/33] fix: do not modify the metric cached by the grid in
 get_metric

---
 zoidberg/zoidberg.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/zoidberg/zoidberg.py b/zoidberg/zoidberg.py
index 7230f3a..d8c9e4f 100644
--- a/zoidberg/zoidberg.py
+++ b/zoidberg/zoidberg.py
@@ -432,7 +432,8 @@ def update_metric_names(metric):
 def get_metric(grid, magnetic_field):
     nx, ny, nz = grid.shape
     # Get metric tensor
-    metric = grid.metric()
+    # Note: Copy, since the grid caches its metric and it is modified below
+    metric = {k: np.array(v) for k, v in grid.metric().items()}
 
     # Check if the magnetic field is in cylindrical coordinates
     # If so, we need to change the gyy and g_yy metrics
-- 
2.43.0


From 82c0fe8f1fd3a3688074968536fcc05c70ce0652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:22:44 +0000
Subject: [PATCH 10/33] fix: keep the psi attribute of GEQDSK out of other
 fields

The dictionary of attributes is shared by all MagneticField classes, so psi
was also written for fields which are not from this g-file.
---
 zoidberg/field.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/zoidberg/field.py b/zoidberg/field.py
index af68411..fc5caed 100644
--- a/zoidberg/field.py
+++ b/zoidberg/field.py
@@ -1259,6 +1259,8 @@ class GEQDSK(MagneticField):
         self.psi_func = interpolate.RectBivariateSpline(self.r, self.z, self.psi)
 
         # Add to the attributes so that it can be written to file
+        # Note: Do not change the dictionary shared by all magnetic fields
+        self.attributes = dict(self.attributes)
         self.attributes["psi"] = lambda x, z, phi: self.psi_func(x, z, grid=False)
 
         # Create a normalised psi array
-- 
2.43.0


From d02b6be8ce3bf2f60295634bc6594fab8871fb7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:23:20 +0000
Subject: [PATCH 11/33] fix: do not return cached traces of a different request

CachingFieldTracer hashed the arguments without a separator, so that e.g.
x=1.5, z=15.0 and x=1.51, z=5.0 shared one cache file, and ignored options
such as rtol.
---
 zoidberg/fieldtracer.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/zoidberg/fieldtracer.py b/zoidberg/fieldtracer.py
index 52f9f61..b187aa1 100644
--- a/zoidberg/fieldtracer.py
+++ b/zoidberg/fieldtracer.py
@@ -429,13 +429,17 @@ class CachingFieldTracer:
             if self.debug:
                 print(s)
             m.update(s)
+            # Separate the arguments, so that different arguments do not give
+            # the same data
+            m.update(b";")
         return m.hexdigest()
 
     def _guess_shape(self, x_values, y_values):
         return len(y_values), *x_values.shape, 2
 
     def follow_field_lines(self, x_values, z_values, y_values, **kwargs):
-        fn = self.cachename % self._myhash(x_values, z_values, y_values)
+        options = [(k, v) for k, v in sorted(kwargs.items()) if v is not None]
+        fn = self.cachename % self._myhash(x_values, z_values, y_values, *options)
         try:
             dat = np.loadtxt(fn)
             dat.shape = self._guess_shape(x_values, y_values)
-- 
2.43.0


From 31448307637d6266a0084ae7fbc6886d2c7e0d8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:23:20 +0000
Subject: [PATCH 12/33] fix: do not leave incomplete cache files in
 CachingFieldTracer

If writing is interrupted the truncated file was used by the next run, and
a number cut short at the end is read as a different value.
---
 zoidberg/fieldtracer.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/zoidberg/fieldtracer.py b/zoidberg/fieldtracer.py
index b187aa1..81776ca 100644
--- a/zoidberg/fieldtracer.py
+++ b/zoidberg/fieldtracer.py
@@ -1,4 +1,5 @@
 import itertools
+import os
 from multiprocessing import Pool
 
 import numpy as np
@@ -452,7 +453,9 @@ class CachingFieldTracer:
         if self.debug:
             print(f"saving {ret.shape}, {x_values.shape}")
         ret.shape = -1, shape[-1]
-        np.savetxt(fn, ret)
+        # Only put complete files at the final location, in case of interruption
+        np.savetxt(f"{fn}.{os.getpid()}.tmp", ret)
+        os.replace(f"{fn}.{os.getpid()}.tmp", fn)
         assert shape == self._guess_shape(x_values, y_values), (
             f"Estimated {self._guess_shape(x_values, y_values)} but got {shape}"
         )
-- 
2.43.0


From 9305c9b28b66e1d68f57a4245e5dd9705e8db519 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:23:20 +0000
Subject: [PATCH 13/33] fix: store the sub-sampled maps of every parallel slice
 in make_maps

The sub-sampled maps were only calculated for the last slice in each
direction, leaving zeros for the others if nslice > 1. The boundary of
every slice was also evaluated at the y of the last one.
---
 zoidberg/zoidberg.py | 108 +++++++++++++++++++++----------------------
 1 file changed, 54 insertions(+), 54 deletions(-)

diff --git a/zoidberg/zoidberg.py b/zoidberg/zoidberg.py
index d8c9e4f..70fcb47 100644
--- a/zoidberg/zoidberg.py
+++ b/zoidberg/zoidberg.py
@@ -221,8 +221,8 @@ def make_maps(
                 1:, ...
             ]
 
-            for parallel_slice, coord, pol_slice in zip(
-                parallel_slices, coords, pol_slices
+            for parallel_slice, coord, pol_slice, y_slice in zip(
+                parallel_slices, coords, pol_slices, y_slices[1:]
             ):
                 # Store the coordinates in real space
                 parallel_slice.R[:, j, :] = coord[:, :, 0]
@@ -247,59 +247,59 @@ def make_maps(
                 parallel_slice.xt_prime[:, j, :] = xind
                 parallel_slice.zt_prime[:, j, :] = zind
 
-            if nsamples == 1:
-                # Only one sample per cell
-                parallel_slice.xt_primes[:, j, :, 0] = xind
-                parallel_slice.zt_primes[:, j, :, 0] = zind
-            elif pol_slice is None:
-                # No slice grid, so hit a boundary
-                # Not calculating intersection R,Z so no need to follow
-                parallel_slice.xt_primes[:, j, :, :] = -1
-                parallel_slice.zt_primes[:, j, :, :] = -1
-            else:
-                # Multiple samples.
-                # Interpolate R and Z to get starting locations
-                from scipy import interpolate
-
-                R = pol.R
-                Z = pol.Z
-                nx, nz = pol.R.shape
-                # Wrap around in Z by adding the arrays
-                Rinterp = interpolate.RegularGridInterpolator(
-                    (np.arange(nx), np.arange(nz + 2) - 1),
-                    np.concatenate((R[:, -1:], R, R[:, 0:1]), axis=-1),
-                    bounds_error=False,
-                    fill_value=None,  # Extrapolates
-                )
-                Zinterp = interpolate.RegularGridInterpolator(
-                    (np.arange(nx), np.arange(nz + 2) - 1),
-                    np.concatenate((Z[:, -1:], Z, Z[:, 0:1]), axis=-1),
-                    bounds_error=False,
-                    fill_value=None,  # Extrapolates
-                )
-
-                # Indices of the cell centers
-                xinds, zinds = np.meshgrid(np.arange(nx), np.arange(nz), indexing="ij")
-
-                for s, xo, zo, w in zip(range(nsamples), xoffsets, zoffsets, weights):
-                    coord = field_tracer.follow_field_lines(
-                        Rinterp((xinds + xo, zinds)),
-                        Zinterp((xinds + zo, zinds)),
-                        [ycoord, y_slice],
-                        rtol=rtol,
-                    )[1, ...]
-                    xcoord = coord[:, :, 0]
-                    zcoord = coord[:, :, 1]
-                    xind, zind = pol_slice.findIndex(xcoord, zcoord)
-
-                    # Check boundary defined by the field
-                    # Note: A fraction of points may hit the boundary
-                    outside = magnetic_field.boundary.outside(xcoord, y_slice, zcoord)
-                    xind[outside] = -1
-                    zind[outside] = -1
+                if nsamples == 1:
+                    # Only one sample per cell
+                    parallel_slice.xt_primes[:, j, :, 0] = xind
+                    parallel_slice.zt_primes[:, j, :, 0] = zind
+                elif pol_slice is None:
+                    # No slice grid, so hit a boundary
+                    # Not calculating intersection R,Z so no need to follow
+                    parallel_slice.xt_primes[:, j, :, :] = -1
+                    parallel_slice.zt_primes[:, j, :, :] = -1
+                else:
+                    # Multiple samples.
+                    # Interpolate R and Z to get starting locations
+                    from scipy import interpolate
+
+                    R = pol.R
+                    Z = pol.Z
+                    nx, nz = pol.R.shape
+                    # Wrap around in Z by adding the arrays
+                    Rinterp = interpolate.RegularGridInterpolator(
+                        (np.arange(nx), np.arange(nz + 2) - 1),
+                        np.concatenate((R[:, -1:], R, R[:, 0:1]), axis=-1),
+                        bounds_error=False,
+                        fill_value=None,  # Extrapolates
+                    )
+                    Zinterp = interpolate.RegularGridInterpolator(
+                        (np.arange(nx), np.arange(nz + 2) - 1),
+                        np.concatenate((Z[:, -1:], Z, Z[:, 0:1]), axis=-1),
+                        bounds_error=False,
+                        fill_value=None,  # Extrapolates
+                    )
 
-                    parallel_slice.xt_primes[:, j, :, s] = xind
-                    parallel_slice.zt_primes[:, j, :, s] = zind
+                    # Indices of the cell centers
+                    xinds, zinds = np.meshgrid(np.arange(nx), np.arange(nz), indexing="ij")
+
+                    for s, xo, zo, w in zip(range(nsamples), xoffsets, zoffsets, weights):
+                        coord = field_tracer.follow_field_lines(
+                            Rinterp((xinds + xo, zinds)),
+                            Zinterp((xinds + zo, zinds)),
+                            [ycoord, y_slice],
+                            rtol=rtol,
+                        )[1, ...]
+                        xcoord = coord[:, :, 0]
+                        zcoord = coord[:, :, 1]
+                        xind, zind = pol_slice.findIndex(xcoord, zcoord)
+
+                        # Check boundary defined by the field
+                        # Note: A fraction of points may hit the boundary
+                        outside = magnetic_field.boundary.outside(xcoord, y_slice, zcoord)
+                        xind[outside] = -1
+                        zind[outside] = -1
+
+                        parallel_slice.xt_primes[:, j, :, s] = xind
+                        parallel_slice.zt_primes[:, j, :, s] = zind
 
             if (not quiet) and (ny > 1):
                 if tqdm:
-- 
2.43.0


From 98c81a004ea38aad0272e58deadcd64239cfc0ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:23:20 +0000
Subject: [PATCH 14/33] fix: start the sub-samples of a cell from the
 quadrature points

The offsets were both applied in x, differently for R and Z, so the traces
did not start from the points the weights belong to.
---
 zoidberg/zoidberg.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/zoidberg/zoidberg.py b/zoidberg/zoidberg.py
index 70fcb47..f075743 100644
--- a/zoidberg/zoidberg.py
+++ b/zoidberg/zoidberg.py
@@ -279,12 +279,16 @@ def make_maps(
                     )
 
                     # Indices of the cell centers
-                    xinds, zinds = np.meshgrid(np.arange(nx), np.arange(nz), indexing="ij")
+                    xinds, zinds = np.meshgrid(
+                        np.arange(nx), np.arange(nz), indexing="ij"
+                    )
 
-                    for s, xo, zo, w in zip(range(nsamples), xoffsets, zoffsets, weights):
+                    for s, xo, zo, w in zip(
+                        range(nsamples), xoffsets, zoffsets, weights
+                    ):
                         coord = field_tracer.follow_field_lines(
-                            Rinterp((xinds + xo, zinds)),
-                            Zinterp((xinds + zo, zinds)),
+                            Rinterp((xinds + xo, zinds + zo)),
+                            Zinterp((xinds + xo, zinds + zo)),
                             [ycoord, y_slice],
                             rtol=rtol,
                         )[1, ...]
@@ -294,7 +298,9 @@ def make_maps(
 
                         # Check boundary defined by the field
                         # Note: A fraction of points may hit the boundary
-                        outside = magnetic_field.boundary.outside(xcoord, y_slice, zcoord)
+                        outside = magnetic_field.boundary.outside(
+                            xcoord, y_slice, zcoord
+                        )
                         xind[outside] = -1
                         zind[outside] = -1
 
-- 
2.43.0


From f0c566cde5bbd2c166d9c6b8ff21c54d513c81b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:24:00 +0000
Subject: [PATCH 15/33] fix: start sub-samples of the edge cells of rectangular
 grids in the cell

The wrap around in z interpolated between both ends of the domain, so the
first and last cells in z were sampled from the middle of the domain.
---
 zoidberg/zoidberg.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/zoidberg/zoidberg.py b/zoidberg/zoidberg.py
index f075743..b163b95 100644
--- a/zoidberg/zoidberg.py
+++ b/zoidberg/zoidberg.py
@@ -11,7 +11,7 @@ from . import fieldtracer
 from .diff import field_line_length
 from .field import Slab
 from .grid import Grid
-from .poloidal_grid import StructuredPoloidalGrid
+from .poloidal_grid import RectangularPoloidalGrid, StructuredPoloidalGrid
 
 try:
     from tqdm.auto import tqdm
@@ -286,9 +286,15 @@ def make_maps(
                     for s, xo, zo, w in zip(
                         range(nsamples), xoffsets, zoffsets, weights
                     ):
+                        if isinstance(pol, RectangularPoloidalGrid):
+                            # R, Z do not wrap around in z
+                            Rstart, Zstart = pol.getCoordinate(xinds + xo, zinds + zo)
+                        else:
+                            Rstart = Rinterp((xinds + xo, zinds + zo))
+                            Zstart = Zinterp((xinds + xo, zinds + zo))
                         coord = field_tracer.follow_field_lines(
-                            Rinterp((xinds + xo, zinds + zo)),
-                            Zinterp((xinds + xo, zinds + zo)),
+                            Rstart,
+                            Zstart,
                             [ycoord, y_slice],
                             rtol=rtol,
                         )[1, ...]
-- 
2.43.0


From 8d1fa8d5e120da6860a3231dda6647adc33c9278 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:24:00 +0000
Subject: [PATCH 16/33] fix: write gyy consistent with g_yy

Only the covariant component was replaced by the one based on the field
line length, so that gyy * g_yy was not 1 in the grid file.
---
 zoidberg/zoidberg.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/zoidberg/zoidberg.py b/zoidberg/zoidberg.py
index b163b95..0f765f5 100644
--- a/zoidberg/zoidberg.py
+++ b/zoidberg/zoidberg.py
@@ -619,6 +619,8 @@ class MapWriter:
             for post in "", "_cell_ylow", "_cell_yhigh":
                 metric[f"g_yy{post}"] = (maps[f"Ly{post}"] / metric["dy"]) ** 2
             metric["g_yy_correct"] = (maps["Ly"] / metric["dy"]) ** 2
+            # Keep the contravariant component consistent
+            metric["gyy"] = 1.0 / metric["g_yy"]
         else:
             for post in "_cell_ylow", "_cell_yhigh":
                 metric[f"g_yy{post}"] = metric["g_yy"]
-- 
2.43.0


From d2d2d4c5ac90a4dd939b3ff5d6fc24fd90b41c37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:24:00 +0000
Subject: [PATCH 17/33] fix: average the VMEC field onto all of the full mesh

The second and second to last surface were left at zero, and the axis and
the last surface were not extrapolated linearly.
---
 zoidberg/field.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/zoidberg/field.py b/zoidberg/field.py
index fc5caed..9f5f417 100644
--- a/zoidberg/field.py
+++ b/zoidberg/field.py
@@ -925,9 +925,9 @@ class VMEC(MagneticField):
 
     def __rolling_average(self, field):
         result = np.zeros_like(field)
-        result[:, 0] = field[:, 1] - 0.5 * field[:, 2]
-        result[:, 2:-2] = 0.5 * (field[:, 2:-2] + field[:, 3:-1])
-        result[:, -1] = 2 * field[:, -2] - field[:, -3]
+        result[:, 0] = 1.5 * field[:, 1] - 0.5 * field[:, 2]
+        result[:, 1:-1] = 0.5 * (field[:, 1:-1] + field[:, 2:])
+        result[:, -1] = 1.5 * field[:, -1] - 0.5 * field[:, -2]
         return result
 
     def cfunct(self, field):
-- 
2.43.0


From 5bd14ade0a5abb9e78c0738de4da61a25a1f3c30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:24:00 +0000
Subject: [PATCH 18/33] fix: use the asymmetric terms of R, and the derivative
 of the asymmetric terms

The sine terms of R used the cosine coefficients, and the derivatives of
the asymmetric terms had the wrong sign.
---
 zoidberg/field.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/zoidberg/field.py b/zoidberg/field.py
index 9f5f417..f23a8f4 100644
--- a/zoidberg/field.py
+++ b/zoidberg/field.py
@@ -1001,10 +1001,10 @@ class VMEC(MagneticField):
                 iasym = 0
 
             if iasym:
-                rumnc = -f["rmns"].T * xm_big
-                rvmnc = -f["rmns"].T * xn_big
-                zumns = f["zmnc"].T * xm_big
-                zvmns = f["zmnc"].T * xn_big
+                rumnc = f["rmns"].T * xm_big
+                rvmnc = f["rmns"].T * xn_big
+                zumns = -f["zmnc"].T * xm_big
+                zvmns = -f["zmnc"].T * xn_big
 
             bsupumnc = self.__rolling_average(f["bsupumnc"].T).T
             bsupvmnc = self.__rolling_average(f["bsupvmnc"].T).T
@@ -1033,7 +1033,7 @@ class VMEC(MagneticField):
             dzdu = self.cfunct(zumnc.T)
             dzdv = self.cfunct(zvmnc.T)
             if iasym:
-                self.r_stz = self.r_stz + self.sfunct(f["rmnc"])
+                self.r_stz = self.r_stz + self.sfunct(f["rmns"])
                 drdu = drdu + self.cfunct(rumnc.T)
                 drdv = drdv + self.cfunct(rvmnc.T)
                 self.z_stz = self.z_stz + self.cfunct(f["zmnc"])
-- 
2.43.0


From 50a2ec547e4783a4fb2fc7d03925fb899d6adda6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:24:00 +0000
Subject: [PATCH 19/33] fix: smooth points at the end of the line

The point after the smoothed range is the first one, if the range includes
the last point.
---
 zoidberg/smooth.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/zoidberg/smooth.py b/zoidberg/smooth.py
index 4ee0dc1..c88e010 100644
--- a/zoidberg/smooth.py
+++ b/zoidberg/smooth.py
@@ -240,9 +240,9 @@ def gen_newr(r, z, splitedlist, bounds, plot):
         dstart = (X[0] - newr[start_index - 1]) ** 2 + (
             Y[0] - newz[start_index - 1]
         ) ** 2
-        dend = (X[-1] - newr[start_index + len(alist)]) ** 2 + (
-            Y[-1] - newz[start_index + len(alist)]
-        ) ** 2
+        # The line is periodic
+        next_index = (start_index + len(alist)) % len(newr)
+        dend = (X[-1] - newr[next_index]) ** 2 + (Y[-1] - newz[next_index]) ** 2
         maxfac = 3
         if not (maxfac**-2 < dstart / dend < maxfac**2):
             print(f"dstart / dend is {dstart / dend} - check has failed")
-- 
2.43.0


From 25fe5b34c599b6119ed3620beee7f4907fec0fc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:24:00 +0000
Subject: [PATCH 20/33] fix: only use matplotlib in smooth if plotting was
 requested

---
 zoidberg/smooth.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/zoidberg/smooth.py b/zoidberg/smooth.py
index c88e010..f75ac9a 100644
--- a/zoidberg/smooth.py
+++ b/zoidberg/smooth.py
@@ -333,9 +333,10 @@ def smooth(r, z, cutoff=0.75, bounds=10, bounds_find=None, plot=False):
         bounds += 1
         debs += [deb[-1]]
         if bounds > bounds0 * 5:
-            plt.legend()
-            plt.gca().set_aspect("equal")
-            plt.title("failed")
+            if plot:
+                plt.legend()
+                plt.gca().set_aspect("equal")
+                plt.title("failed")
             alldeb.append(debs)
             return
 
-- 
2.43.0


From 50337899eec27ac267a1e33c2d40859b8b313e50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:25:19 +0000
Subject: [PATCH 21/33] fix: use the tolerance passed to
 FusionSCTracer.follow_field_lines

---
 zoidberg/fieldtracer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zoidberg/fieldtracer.py b/zoidberg/fieldtracer.py
index 81776ca..60aaa89 100644
--- a/zoidberg/fieldtracer.py
+++ b/zoidberg/fieldtracer.py
@@ -967,7 +967,7 @@ class FusionSCTracer(FieldTracer):
         Z = z_values
         direction = "ccw" if y_values[0] < y_values[1] else "cw"
         pnts = fsc.flt.poincareInPhiPlanes(
-            [X, Y, Z], self.field, y_values[1:], 1, direction=direction, **self.kwargs
+            [X, Y, Z], self.field, y_values[1:], 1, direction=direction, **kwargs
         )
         assert pnts.shape[-1] == 1
         pnts = pnts[..., 0]
-- 
2.43.0


From 72a44e2cd314f0e7392339b91aac456f0d4ec43e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:25:19 +0000
Subject: [PATCH 22/33] fix: wait for the results of FieldTracerWeb also
 without retries

---
 zoidberg/fieldtracer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/zoidberg/fieldtracer.py b/zoidberg/fieldtracer.py
index 60aaa89..c3e825e 100644
--- a/zoidberg/fieldtracer.py
+++ b/zoidberg/fieldtracer.py
@@ -633,14 +633,14 @@ class FieldTracerWeb:
                 results = [start(i) for i in range(0, len(x_values), chunk)]
                 # Wait for result and combine
                 for j, i in enumerate(range(0, len(x_values), chunk)):
-                    while retry > 0:
+                    while True:
                         try:
                             results[j] = results[j].get(timeout=timeout)
                             break
                         except Exception as e:
-                            retry -= 1
                             if not retry > 0:
                                 raise
+                            retry -= 1
                             print(
                                 f"Fieldlinetracer failed {e} - going to retry {retry} times"
                             )
-- 
2.43.0


From 88ce29079bc0fffaeda2f5e92f187955b4d06c3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:27:18 +0000
Subject: [PATCH 23/33] fix: do not retry W7-X field requests after control-C

---
 zoidberg/field.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/zoidberg/field.py b/zoidberg/field.py
index f23a8f4..ec6e483 100644
--- a/zoidberg/field.py
+++ b/zoidberg/field.py
@@ -1712,10 +1712,10 @@ class W7X_vacuum(MagneticField):
                 res = tracer.service.magneticField(
                     pos, config, osa_timeout=(10 + len(pos.x1) / 1000)
                 )
-            except:  # noqa
+            except Exception:
                 # Catch any error. Different errors might be
                 # reported, but we want to retry anyway.
-                # Do not except Exception, as that would also
+                # Do not catch BaseException, as that would also
                 # ignore control-C, which we do not want to
                 # ignore.
                 redo -= 1
-- 
2.43.0


From 5366f17490550c27df06776764e4247123ad5875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:45:00 +0000
Subject: [PATCH 24/33] fix: toroidal spacing of parallel slices of
 non-periodic grids

---
 zoidberg/zoidberg.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/zoidberg/zoidberg.py b/zoidberg/zoidberg.py
index 0f765f5..974fdfa 100644
--- a/zoidberg/zoidberg.py
+++ b/zoidberg/zoidberg.py
@@ -689,6 +689,11 @@ class MapWriter:
                     assert np.isclose(np.mean(np.diff(pypar)), meandy), (
                         f"Mean of dy changes from {meandy} to {np.mean(np.diff(pypar))}. Values: {ypar} -> {pypar}"
                     )
+            elif ny > 1:
+                # No planes beyond the ends, continue with the average spacing
+                ind = np.arange(ny) + offset
+                end = np.clip(ind, 0, ny - 1)
+                pypar = ypar[end] + meandy * (ind - end)
 
             RZ = np.array([maps[parallel_slice_field_name(k, offset)] for k in "RZ"])
             par_pgrids = [StructuredPoloidalGrid(*RZ[:, :, i]) for i in range(ny)]
-- 
2.43.0


From 9c025cdd1b6c80d2e8b153bdb4ece2ba82e544b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:27:55 +0000
Subject: [PATCH 25/33] fix: align the weights of RZline.distance with the
 angles (splines)

---
 zoidberg/rzline.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/zoidberg/rzline.py b/zoidberg/rzline.py
index 6b90f8d..a24db3f 100644
--- a/zoidberg/rzline.py
+++ b/zoidberg/rzline.py
@@ -199,10 +199,10 @@ class RZline:
 
         """
 
-        def interp(dat, n):
+        def interp(dat, n, endpoint=False):
             t1 = np.linspace(0, 1, len(dat) + 1)
             return interp1d(t1, np.append(dat, dat[0]), assume_sorted=True)(
-                np.linspace(0, 1, n, endpoint=False)
+                np.linspace(0, 1, n, endpoint=endpoint)
             )
 
         if self.spline_order == 1:
@@ -232,7 +232,7 @@ class RZline:
             self.Rvalue(thetavals, deriv=1) ** 2 + self.Zvalue(thetavals, deriv=1) ** 2
         )
         if weights is not None:
-            dldtheta *= interp(weights, len(thetavals))
+            dldtheta *= interp(weights, len(thetavals), endpoint=True)
 
         # Integrate cumulatively, then take only the values at the grid points (including end)
         return cumtrapz(dldtheta, thetavals, initial=0.0)[::sample]
-- 
2.43.0


From 43dcf9ecbf94e3104a25ea5683b36930f93827d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:27:55 +0000
Subject: [PATCH 26/33] fix: keep the order of the points in
 line_from_points_poly if the line is reversed

---
 zoidberg/rzline.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/zoidberg/rzline.py b/zoidberg/rzline.py
index a24db3f..b1b373a 100644
--- a/zoidberg/rzline.py
+++ b/zoidberg/rzline.py
@@ -435,7 +435,10 @@ def line_from_points_poly(rarray, zarray, show=False, spline_order=None):
         )  # Starting triangle
 
     for i in range(3, npoints):
-        line = RZline(rvals[:i], zvals[:i], spline_order=spline_order)
+        line = RZline(rvals[:i].copy(), zvals[:i].copy(), spline_order=spline_order)
+        # Note: The line may go through the points in the opposite order
+        rvals[:i] = line.R
+        zvals[:i] = line.Z
 
         angle = np.linspace(0, 2 * pi, 100)
         r, z = line.position(angle)
-- 
2.43.0


From 401b206ea2f660ba4a13888ad5f89b5f6dfdf2c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:27:55 +0000
Subject: [PATCH 27/33] fix: also try the last exchange in
 line_from_points_two_opt

---
 zoidberg/rzline.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/zoidberg/rzline.py b/zoidberg/rzline.py
index b1b373a..0ff4fd8 100644
--- a/zoidberg/rzline.py
+++ b/zoidberg/rzline.py
@@ -512,8 +512,8 @@ def line_from_points_two_opt(rarray, zarray, opt=1e-3, **kwargs):
         while improvement_factor > improvement_threshold:
             # Record the distance at the beginning of the loop.
             distance_to_beat = best_distance
-            # From each city except the first and last,
-            for swap_first in range(1, len(route) - 2):
+            # From each city except the first,
+            for swap_first in range(1, len(route) - 1):
                 # to each of the cities following,
                 for swap_last in range(swap_first + 1, len(route)):
                     # try reversing the order of these cities
-- 
2.43.0


From a6ed7ad020a1f7a4a9b29651fcfa765b801805f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:55:05 +0000
Subject: [PATCH 28/33] fix: do not write uninitialised memory as the volume of
 boundary cells

---
 zoidberg/stencil_dagp_fv.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zoidberg/stencil_dagp_fv.py b/zoidberg/stencil_dagp_fv.py
index 908eef2..e015ad8 100755
--- a/zoidberg/stencil_dagp_fv.py
+++ b/zoidberg/stencil_dagp_fv.py
@@ -88,7 +88,7 @@ def doit(pols, plot=False, isSlab=False):
     #
     ### Go in a line around the cell
 
-    Ar = np.empty((pols[0].nx, len(pols), pols[0].nz))
+    Ar = np.zeros((pols[0].nx, len(pols), pols[0].nz))
     todo = enumerate(pols)
     if tqdm and len(pols) > 1:
         todo = tqdm(todo, total=len(pols))
-- 
2.43.0


From cb38e2cf4a70c41575d71e047d0ec34de9c6f735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:43 +0000
Subject: [PATCH 29/33] fix: do not shift the spacing by one point in
 fft_smooth of grid_elliptic

---
 zoidberg/poloidal_grid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zoidberg/poloidal_grid.py b/zoidberg/poloidal_grid.py
index 95439c8..480cf06 100644
--- a/zoidberg/poloidal_grid.py
+++ b/zoidberg/poloidal_grid.py
@@ -829,7 +829,7 @@ def grid_elliptic(
         xnew = np.empty_like(x)
         xnew[0] = x[0]
         for i in range(len(x) - 1):
-            xnew[i + 1] = xnew[i] + dxn[i]
+            xnew[i + 1] = xnew[i] + dxn[i + 1]
         return xnew % (np.pi * 2)
 
     if (nx > restrict_size) or (nz > restrict_size):
-- 
2.43.0


From cd90bb14f21a2ae013e2fcd393a75fdecbff1809 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:10 +0000
Subject: [PATCH 30/33] fix: use the asymmetric terms of the field of VMEC
 equilibria

---
 zoidberg/field.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/zoidberg/field.py b/zoidberg/field.py
index ec6e483..6721d6c 100644
--- a/zoidberg/field.py
+++ b/zoidberg/field.py
@@ -1027,6 +1027,9 @@ class VMEC(MagneticField):
 
             bu = self.cfunct(bsupumnc)
             bv = self.cfunct(bsupvmnc)
+            if iasym:
+                bu = bu + self.sfunct(self.__rolling_average(f["bsupumns"].T).T)
+                bv = bv + self.sfunct(self.__rolling_average(f["bsupvmns"].T).T)
 
             drdu = self.sfunct(rumns.T)
             drdv = self.sfunct(rvmns.T)
-- 
2.43.0


From 3f04e0233302f3d969cb3cd17519b49a53a75220 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:26:44 +0000
Subject: [PATCH 31/33] fix: default vertical range of the W7X fields

---
 zoidberg/field.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/zoidberg/field.py b/zoidberg/field.py
index 6721d6c..e829a10 100644
--- a/zoidberg/field.py
+++ b/zoidberg/field.py
@@ -1341,7 +1341,7 @@ class W7X_vacuum(MagneticField):
         ny=32,
         nz=128,
         x_range=(4.05, 6.55),
-        z_range=(-1.35, 1, 35),
+        z_range=(-1.35, 1.35),
         phimax=2.0 * np.pi,
         configuration=0,
         plot_poincare=False,
@@ -1824,7 +1824,7 @@ class W7X_VMEC(MagneticField):
         ny=32,
         nz=512,
         x_range=[4.05, 6.55],
-        z_range=[-1.35, 1, 35],
+        z_range=[-1.35, 1.35],
         phi_range=[0, 2 * np.pi],
         vmec_id="w7x_ref_171",
     ):
-- 
2.43.0


From c6f78db1275311728180dc9b943395b741f8cd31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:26:44 +0000
Subject: [PATCH 32/33] fix: W7X_VMEC used the number of points before it was
 known

---
 zoidberg/field.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/zoidberg/field.py b/zoidberg/field.py
index e829a10..fe2fa8f 100644
--- a/zoidberg/field.py
+++ b/zoidberg/field.py
@@ -1866,21 +1866,23 @@ class W7X_VMEC(MagneticField):
 
         pos = vmec.types.Points3D()
 
+        nx, ny, nz = r.shape
+
         # x in Cartesian (real-space)
         pos.x1 = np.ndarray.flatten(
-            np.ones((self.nx, self.ny, self.nz)) * r * np.cos(phi)
+            np.ones((nx, ny, nz)) * r * np.cos(phi)
         )
         # y in Cartesian (real-space)
         pos.x2 = np.ndarray.flatten(
-            np.ones((self.nx, self.ny, self.nz)) * r * np.sin(phi)
+            np.ones((nx, ny, nz)) * r * np.sin(phi)
         )
         pos.x3 = np.ndarray.flatten(z)  # z in Cartesian (real-space)
         b = vmec.service.magneticField(str(vmec_id), pos)
 
         ## Reshape to 3d array
-        Bx = np.ndarray.reshape(np.asarray(b.field.x1), (self.nx, self.ny, self.nz))
-        By = np.ndarray.reshape(np.asarray(b.field.x2), (self.nx, self.ny, self.nz))
-        Bz = np.ndarray.reshape(np.asarray(b.field.x3), (self.nx, self.ny, self.nz))
+        Bx = np.ndarray.reshape(np.asarray(b.field.x1), (nx, ny, nz))
+        By = np.ndarray.reshape(np.asarray(b.field.x2), (nx, ny, nz))
+        Bz = np.ndarray.reshape(np.asarray(b.field.x3), (nx, ny, nz))
 
         ## Convert to cylindrical coordinates
         Br = Bx * np.cos(phi) + By * np.sin(phi)
-- 
2.43.0


From c000001cd61456a2da1a5e3d61ce83e87f113016 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:43:27 +0000
Subject: [PATCH 33/33] fix: do not repeat the first point in
 SpectralLine.equallySpaced

---
 zoidberg/spectralline.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/zoidberg/spectralline.py b/zoidberg/spectralline.py
index 588a7ef..d8d6dcd 100644
--- a/zoidberg/spectralline.py
+++ b/zoidberg/spectralline.py
@@ -52,7 +52,9 @@ class SpectralLine:
         return _fft(self.resZ.x, theta)
 
     def equallySpaced(self, num=None):
-        freq = np.linspace(0, np.pi * 2, num or len(self.orgLine.R))
+        freq = np.linspace(
+            0, np.pi * 2, num or len(self.orgLine.R), endpoint=False
+        )
         return RZline(self.Rvalue(freq), self.Zvalue(freq))
 
     def plot(self, axis=None, show=True):
-- 
2.43.0

