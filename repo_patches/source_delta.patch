From 4c42bbd26fd6c0137c46094ae56b7da4dcc49fdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:13:37 +0000
Subject: [PATCH 01/22] fix: derive unbuffered tile limits from the tile
 position

get_gridlimit() undid the buffer of the clipped, buffered limits. Where the
buffer of a tile reaches the raster edge without the tile itself doing so
(last tile narrower than the buffer, or buffer as large as a tile) the core
came out too large, and neighbouring tiles overlapped.
---
 all_multipliers.py | 27 ++++++++-------------------
 1 file changed, 8 insertions(+), 19 deletions(-)

diff --git a/all_multipliers.py b/all_multipliers.py
index 69ceb7d..8ac28b4 100755
--- a/all_multipliers.py
+++ b/all_multipliers.py
@@ -166,25 +166,14 @@ class TileGrid(object):
 
         """
 
-        if int(self.x_start[k]) != 0:
-            x1 = int(self.x_start[k] + self.x_buffer)
-        else:
-            x1 = self.x_start[k]
-
-        if int(self.y_start[k]) != 0:
-            y1 = int(self.y_start[k] + self.y_buffer)
-        else:
-            y1 = self.y_start[k]
-
-        if int(self.x_end[k]) != (self.x_dim - 1):
-            x2 = int(self.x_end[k] - self.x_buffer + 1)
-        else:
-            x2 = self.x_dim
-
-        if int(self.y_end[k]) != (self.y_dim - 1):
-            y2 = int(self.y_end[k] - self.y_buffer + 1)
-        else:
-            y2 = self.y_dim
+        # the buffered limits are clipped at the raster edges, so the limits
+        # without buffer can't be derived from them: use the tile position
+        i, j = divmod(k, self.subset_maxrows)
+
+        x1 = i * self.x_step
+        x2 = min((i + 1) * self.x_step, self.x_dim)
+        y1 = j * self.y_step
+        y2 = min((j + 1) * self.y_step, self.y_dim)
 
         return x1, x2, y1, y2
 
-- 
2.43.0


From bb5313acabdfc6c526ceaa57678ed9c7ab0945bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:13:37 +0000
Subject: [PATCH 02/22] fix: no division by zero in convo when there is nothing
 to average

With cells larger than the averaging distance avg_width is 0 and convo
divided by zero. Keep the value of the cell, as where it has no neighbour.
---
 terrain/terrain_mult.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/terrain/terrain_mult.py b/terrain/terrain_mult.py
index 3b24600..68257d5 100644
--- a/terrain/terrain_mult.py
+++ b/terrain/terrain_mult.py
@@ -226,7 +226,7 @@ def convo(one_dir, data, avg_width, lag_width):
             all_neighb_no = all_neighbour_lambda(i, jj, rows, cols,
                                                  lag_width)
 
-            if all_neighb_no > 0:
+            if all_neighb_no > 0 and avg_width > 0:
                 if all_neighb_no < avg_width:
                     max_neighb_no = all_neighb_no
                 else:
-- 
2.43.0


From e2d1cf8fa32eb1a6a709446a16588f329c5566b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:13:37 +0000
Subject: [PATCH 03/22] fix: terrain multiplier of tiles with few rows

The averaging width was limited by the number of rows in all directions, so
a tile with few rows and many columns was averaged over too short a distance
(or not at all) for east and west winds. Where the convolution was skipped
nodata cells were also saved with a multiplier of 1.
---
 terrain/terrain_mult.py | 17 +++++------------
 1 file changed, 5 insertions(+), 12 deletions(-)

diff --git a/terrain/terrain_mult.py b/terrain/terrain_mult.py
index 68257d5..42fdaab 100644
--- a/terrain/terrain_mult.py
+++ b/terrain/terrain_mult.py
@@ -115,18 +115,11 @@ def terrain(temp_tile, tile_extents_nobuffer):
             avg_width = int(avg_dist / (gridwidth * 1.414))
             lag_width = int(lag_dist / (gridwidth * 1.414))
 
-        # if the tile is smaller than the lag distance, no convolultion
-        if lag_width > reclassified_array.shape[0]:
-            outdata = reclassified_array
-        else:
-            # if the tile is smaller than the upwind buffer, all the tile is in
-            # buffer
-            if (avg_width + lag_width) > reclassified_array.shape[0]:
-                avg_width = reclassified_array.shape[0] - lag_width
-
-            log.info('convolution average width ' + str(avg_width))
-            outdata = convo(one_dir, reclassified_array, avg_width, lag_width)
-            outdata[mask] = np.nan
+        # convo limits the average to the cells inside the tile in the
+        # direction of the wind, and keeps the value of cells without any
+        log.info('convolution average width ' + str(avg_width))
+        outdata = convo(one_dir, reclassified_array, avg_width, lag_width)
+        outdata[mask] = np.nan
 
         # find output folder
         tile_folder = os.path.dirname(temp_tile)
-- 
2.43.0


From 1741e68a256c29d3d8ae0feb08c70f8641d99413 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:13:37 +0000
Subject: [PATCH 04/22] fix: do not accumulate directions when shielding is not
 convolved

For cells larger than 100 m combine() got the same array in every direction
and changes it in place, so each direction started from the result of the
one before.
---
 shielding/shield_mult.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/shielding/shield_mult.py b/shielding/shield_mult.py
index fd30647..213e8fa 100644
--- a/shielding/shield_mult.py
+++ b/shielding/shield_mult.py
@@ -306,7 +306,7 @@ def convo_combine(ms_orig, slope_array, aspect_array, tile_extents_nobuffer):
             mask = kern_dir(kernel_size)
             outdata = blur_image(data, mask)
         else:
-            outdata = data
+            outdata = data.copy()
 
         result = combine(outdata, slope_array, aspect_array, one_dir)
         log.debug('Maximum shielding value is {0}'.format(result.max()))
-- 
2.43.0


From dee6a1ab81745d1eb46ad3bcfa823c79c998129b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:13:37 +0000
Subject: [PATCH 05/22] fix: do not wrap around the start of the line in
 mh_calc

For a hill close to the start of a line the first index was -1, which is
the last point of the line: it could receive the multiplier of the hill.
---
 topographic/mh.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/topographic/mh.py b/topographic/mh.py
index 76bf130..8c5deaa 100644
--- a/topographic/mh.py
+++ b/topographic/mh.py
@@ -85,7 +85,7 @@ def mh_calc(profile, ridge, valley, data_spacing):
 
     # calculate the mh from the front l2_capital to the back l2_capital with
     # the escarpment factor considered:
-    l1 = int(np.floor(fl2_ind)) - 1
+    l1 = max(0, int(np.floor(fl2_ind)) - 1)
     l2 = int(
         np.floor(
             np.minimum(
-- 
2.43.0


From 2a44e7500814cfca9110fa0f99702cce9c3aaf4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:13:37 +0000
Subject: [PATCH 06/22] fix: topographic multiplier of an integer DEM

NaN can not be assigned to an integer array (clip_dataset keeps int32 DEMs).
---
 topographic/topo_mult.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/topographic/topo_mult.py b/topographic/topo_mult.py
index 3c30a0c..1b8c1a7 100644
--- a/topographic/topo_mult.py
+++ b/topographic/topo_mult.py
@@ -60,7 +60,7 @@ def topomult(input_dem, tile_extents_nobuffer):
     lon, lat = get_lat_lon(tile_extents_nobuffer, pixelwidth, pixelheight)
 
     band = ds.GetRasterBand(1)
-    elevation_array = band.ReadAsArray(0, 0, nc, nr)
+    elevation_array = band.ReadAsArray(0, 0, nc, nr).astype(float)
 
     nodata_value = band.GetNoDataValue()
     if nodata_value is not None:
-- 
2.43.0


From 2275cc775e8a291d6a505ac9fbc42ab2a9c5ad70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:13:37 +0000
Subject: [PATCH 07/22] fix: smoothing of the topographic multiplier at the
 edge of the data

mode='same' pads with zeros, which gave multipliers as low as 4/9 along the
edge of the DEM where there is no buffer to cut off.
---
 topographic/topo_mult.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/topographic/topo_mult.py b/topographic/topo_mult.py
index 1b8c1a7..e3d8afe 100644
--- a/topographic/topo_mult.py
+++ b/topographic/topo_mult.py
@@ -134,7 +134,8 @@ def topomult(input_dem, tile_extents_nobuffer):
 
         # smooth
         g = np.ones((3, 3)) / 9.
-        mhsmooth = signal.convolve(mhdata, g, mode='same')
+        mhsmooth = signal.convolve(np.pad(mhdata, 1, mode='edge'), g,
+                                   mode='valid')
         mhsmooth[np.isnan(elevation_array)] = np.nan
         del mhdata
 
-- 
2.43.0


From 46a5d471f41d18aa424861fd052145ec59d44b2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:13:37 +0000
Subject: [PATCH 08/22] fix: integer indices of the sub-blocks in
 blrb.subdivide

Python 3 division gave fractional corners (and block shapes) for grids with
an odd number of rows or columns.
---
 utilities/blrb.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/utilities/blrb.py b/utilities/blrb.py
index a77cae8..4cffe87 100644
--- a/utilities/blrb.py
+++ b/utilities/blrb.py
@@ -93,8 +93,8 @@ def subdivide(origin=DEFAULT_ORIGIN, shape=DEFAULT_SHAPE):
               'LR': <list of 2-tuples> }
     """
     i0, ie, j0, je = indices(origin, shape)
-    ic = origin[0] + shape[0] / 2
-    jc = origin[1] + shape[1] / 2
+    ic = origin[0] + shape[0] // 2
+    jc = origin[1] + shape[1] // 2
 
     return {
         'UL': [(i0, j0), (i0, jc), (ic, j0), (ic, jc)],
-- 
2.43.0


From d1a0d21f055a6ecdd99505c110516fc2763ff232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:13:37 +0000
Subject: [PATCH 09/22] fix: bilinear interpolation of a block one row or
 column wide

---
 utilities/blrb.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/utilities/blrb.py b/utilities/blrb.py
index 4cffe87..085edfa 100644
--- a/utilities/blrb.py
+++ b/utilities/blrb.py
@@ -49,8 +49,8 @@ def bilinear(shape, f_ul, f_ur, f_lr, f_ll, dtype=numpy.float64):
 
     s, t = [a.astype(dtype) for a in numpy.ogrid[0:shape[0], 0:shape[1]]]
 
-    s /= (shape[0] - 1.0)
-    t /= (shape[1] - 1.0)
+    s /= max(shape[0] - 1.0, 1.0)
+    t /= max(shape[1] - 1.0, 1.0)
 
     return s * (t * f_lr + (1.0 - t) * f_ll) + \
         (1.0 - s) * (t * f_ur + (1.0 - t) * f_ul)
-- 
2.43.0


From 6941b6efb099f65899ddefe2cfc1fed4a100cac7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:13:37 +0000
Subject: [PATCH 10/22] fix: keep nodata cells as nodata in the M3 product

The data below the mask of the masked product is the product up to the
masked value, so -9999 in one multiplier was saved as an arbitrary number.
---
 utilities/convert.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/utilities/convert.py b/utilities/convert.py
index c0e77a4..22eec9f 100644
--- a/utilities/convert.py
+++ b/utilities/convert.py
@@ -137,8 +137,7 @@ class Converter:
             # Write the pre-multiplied value to a band
             band = out_ds.GetRasterBand(band_index)
             try:
-                band.WriteArray(multiplied.data[::-1])
-                band.WriteArray(multiplied.data)
+                band.WriteArray(multiplied.filled(self.missing_value))
             except ValueError:
                 log.error("Mismatch between output file and data array")
                 log.error(multiplied.data.shape)
-- 
2.43.0


From 32a1b07f51e515ad3448e412e69fc40f555dc698 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:13:37 +0000
Subject: [PATCH 11/22] fix: shape of the replacement of a missing multiplier
 file

---
 utilities/convert.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utilities/convert.py b/utilities/convert.py
index 22eec9f..575843f 100644
--- a/utilities/convert.py
+++ b/utilities/convert.py
@@ -121,7 +121,7 @@ class Converter:
                     ds = driver.Create('', nx, ny, 1, gdal.GDT_Float32)
                     ds.SetGeoTransform(transform)
                     band = ds.GetRasterBand(1)
-                    band.WriteArray(np.ones((nx, ny)))
+                    band.WriteArray(np.ones((ny, nx)))
 
                 bands.append(ma.masked_values(
                     BandReadAsArray(ds.GetRasterBand(1)),
-- 
2.43.0


From 62d0b33de7350ff768052828e4f80d6596bde0a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:13:37 +0000
Subject: [PATCH 12/22] fix: geotransform when the first multiplier file of a
 tile is missing

---
 utilities/convert.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/utilities/convert.py b/utilities/convert.py
index 575843f..c9bfc9e 100644
--- a/utilities/convert.py
+++ b/utilities/convert.py
@@ -93,6 +93,8 @@ class Converter:
         nx = tmpds.RasterXSize
         ny = tmpds.RasterYSize
 
+        transform = tmpds.GetGeoTransform()
+
         out_ds = driver.Create('', nx, ny, 1, gdal.GDT_Float32)
 
         del tmpds
@@ -103,8 +105,6 @@ class Converter:
 
         band_index = 1
 
-        first = True
-
         for direction in self.directions:
             bands = []
 
@@ -127,10 +127,6 @@ class Converter:
                     BandReadAsArray(ds.GetRasterBand(1)),
                     self.missing_value))
 
-                if first:
-                    transform = ds.GetGeoTransform()
-                    first = False
-
             # Multiply the wind multipliers from NetCDF
             multiplied = reduce(np.multiply, bands)
 
-- 
2.43.0


From a092e047aae9f2df49e73f11cee273edd0923631 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:14:06 +0000
Subject: [PATCH 13/22] fix: save all variables in nc_save_grid

It returned after the first variable, so the crs variable was never saved.
---
 utilities/nctools.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/utilities/nctools.py b/utilities/nctools.py
index 86f73d5..6ac10b1 100644
--- a/utilities/nctools.py
+++ b/utilities/nctools.py
@@ -281,16 +281,17 @@ def nc_save_grid(filename, dimensions, variables, nodata=-9999,
             var[:] = np.array(v['values'], dtype=v['dtype'])
 
         var.setncatts(v['atts'])
-        ncobj.setncatts(gatts)
 
-        if datatitle:
-            ncobj.setncattr('title', datatitle)
+    ncobj.setncatts(gatts)
 
-        if keepfileopen:
-            return ncobj
-        else:
-            ncobj.close()
-            return
+    if datatitle:
+        ncobj.setncattr('title', datatitle)
+
+    if keepfileopen:
+        return ncobj
+    else:
+        ncobj.close()
+        return
 
 
 def save_multiplier(multiplier_name, multiplier_values, lat, lon, nc_name):
-- 
2.43.0


From d5e3deb648f7336bfdfa749630600660e54fafdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:14:06 +0000
Subject: [PATCH 14/22] fix: save multipliers when git can not describe the
 code

Without git, a repository or a tag "git describe" fails, which stopped the
run and left it in another working directory.
---
 utilities/nctools.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/utilities/nctools.py b/utilities/nctools.py
index 6ac10b1..62a072b 100644
--- a/utilities/nctools.py
+++ b/utilities/nctools.py
@@ -319,10 +319,11 @@ def save_multiplier(multiplier_name, multiplier_values, lat, lon, nc_name):
 
     # Collect git info - need to make sure git command is executed from
     # code - not from data directory
-    cwd = os.getcwd()  # save working directory
-    os.chdir(os.path.dirname(os.path.realpath(__file__)))
-    git_info = subprocess.check_output(["git", "describe"])
-    os.chdir(cwd)  # restore working directory from saved value
+    code_dir = os.path.dirname(os.path.realpath(__file__))
+    try:
+        git_info = subprocess.check_output(["git", "describe"], cwd=code_dir)
+    except (OSError, subprocess.CalledProcessError):
+        git_info = 'unknown'
 
     # Set global attributes, including metadata capture:
     global_atts = {'Abstract': ('This dataset is the local ' +
-- 
2.43.0


From 8232936fea363ac4d003eaa2b8aba2fc87ceea8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:14:06 +0000
Subject: [PATCH 15/22] fix: spatial_join with shapely 2

STRtree.query returns indices, no longer geometries.
---
 utilities/shapefiles.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/utilities/shapefiles.py b/utilities/shapefiles.py
index 2779db0..6e0c64d 100644
--- a/utilities/shapefiles.py
+++ b/utilities/shapefiles.py
@@ -66,16 +66,15 @@ class shp_file:
         self.attribute = clip_attribute
 
     def spatial_join(self, other, var):
-        # create the index.
-        index_by_id = dict((id(pt), i) for i, pt in enumerate(other.geom))
         # create the spatial tree
         idx_other = STRtree(other.geom)
         # start the merge:
 
         def process(i):
             poly = self.geom[i]
-            fids = [index_by_id[id(pt)] for pt in idx_other.query(poly)
-                    if poly.intersects(pt)]
+            # the tree returns the indices of the geometries
+            fids = [int(ii) for ii in idx_other.query(poly)
+                    if poly.intersects(other.geom[ii])]
             if len(fids) == 0:
                 return None
             elif len(fids) == 1:
-- 
2.43.0


From 1b5fc26ddc35906a27bbd607fdb5617d8127ead4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:22 +0000
Subject: [PATCH 16/22] fix: evaluate cell sizes at the row and column they are
 used for

get_pixel_size takes (x, y) but interpolate_grid calls its function with
(row, column): widths varied along the columns instead of the rows, and
were computed outside of tiles that are not square.
---
 utilities/get_pixel_size_grid.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/utilities/get_pixel_size_grid.py b/utilities/get_pixel_size_grid.py
index 7955341..a296d52 100644
--- a/utilities/get_pixel_size_grid.py
+++ b/utilities/get_pixel_size_grid.py
@@ -120,27 +120,29 @@ def get_pixel_size_grids(dataset):
     :return: tuple of :class:`numpy.ndarray` grid sizes for input dataset
     """
 
-    def get_pixel_x_size(x, y):
+    def get_pixel_x_size(row, col):
         """
         Returns x size in metres of specified pixel as a tuple.
 
-        :param (x,Y): `tuple` the input (x, y) point
+        :param row: `int` the row of the pixel
+        :param col: `int` the column of the pixel
 
-        :return: `float` the grid x size at the input (x, y) point
+        :return: `float` the grid x size at the input (row, col) point
         """
 
-        return get_pixel_size(dataset, (x, y))[0]
+        return get_pixel_size(dataset, (col, row))[0]
 
-    def get_pixel_y_size(x, y):
+    def get_pixel_y_size(row, col):
         """
         Returns y size in metres of specified pixel as a tuple.
 
-        :param (x,Y): `tuple` the input (x, y) point
+        :param row: `int` the row of the pixel
+        :param col: `int` the column of the pixel
 
-        :return: `float` the grid y size at the input (x, y) point
+        :return: `float` the grid y size at the input (row, col) point
         """
 
-        return get_pixel_size(dataset, (x, y))[1]
+        return get_pixel_size(dataset, (col, row))[1]
 
     x_size_grid = np.zeros((dataset.RasterYSize,
                             dataset.RasterXSize)).astype(np.float32)
-- 
2.43.0


From de6386c3f945e7bf2d45197523e200ba7535ace4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:01 +0000
Subject: [PATCH 17/22] fix: a single band in the maximum file

The band added after creating the one-band data set was never written: every
maximum file (and their virtual raster) got a second band of zeros.
---
 utilities/convert.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/utilities/convert.py b/utilities/convert.py
index c9bfc9e..5fc1393 100644
--- a/utilities/convert.py
+++ b/utilities/convert.py
@@ -57,7 +57,6 @@ class Converter:
         maxima = np.max(np.dstack(bands), axis=2)
         # Create output dataset - single band required (maximum only)
         out_ds = driver.Create('', nx, ny, 1, gdal.GDT_Float32)
-        out_ds.AddBand(gdal.GDT_Float32)
         band = out_ds.GetRasterBand(1)
         band.WriteArray(maxima.data)
         band.SetDescription("Maximum of all directions")
-- 
2.43.0


From 55cf63e951eb0894fb763de92bd6e5a1e26ba09b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:48 +0000
Subject: [PATCH 18/22] fix: conversion without any tile

gather always returns one element per process, so the warning for a run
without raster files was unreachable and gdal.BuildVRT failed on an empty
list.
---
 utilities/mpi_runner.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/utilities/mpi_runner.py b/utilities/mpi_runner.py
index 0f4a0a6..e76c930 100644
--- a/utilities/mpi_runner.py
+++ b/utilities/mpi_runner.py
@@ -38,12 +38,12 @@ def parallelise_convert_on_tiles(data_path, comm):
     results = comm.gather(results, root=0)
 
     if comm.rank == 0:
-        if len(results) > 0:
+        tile_files = functools.reduce(lambda total, element:
+                                      total + element[0], results, [])
+        max_tile_files = functools.reduce(lambda total, element:
+                                          total + element[1], results, [])
+        if len(tile_files) > 0:
             log.info("Creating virtual raster table")
-            tile_files = functools.reduce(lambda total, element:
-                                          total + element[0], results, [])
-            max_tile_files = functools.reduce(lambda total, element:
-                                              total + element[1], results, [])
             gdal.BuildVRT(os.path.join(data_path, 'M3',
                                        'wind-multipliers.vrt'),
                           tile_files)
-- 
2.43.0


From 49614e20c83169af3b92ee82debd1c6961bc615a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:15:11 +0000
Subject: [PATCH 19/22] fix: a DEM tile with data is not skipped when its
 checksum is 0

---
 all_multipliers.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/all_multipliers.py b/all_multipliers.py
index 8ac28b4..657331e 100755
--- a/all_multipliers.py
+++ b/all_multipliers.py
@@ -365,8 +365,8 @@ class Multipliers(object):
         tile_name = tile_info[0]
         tile_extents_nobuffer = tile_info[2]
 
-        # check the checksum value of the terrain map tile, if it is greater
-        # than 0, go ahead
+        # go ahead if the DEM tile holds any data (the checksum of the band
+        # can be 0 for a tile with data as well)
         if not os.path.exists(temp_tile_dem):
             log.critical(f'File does not exist: {temp_tile_dem}')
             raise OSError
@@ -376,10 +376,10 @@ class Multipliers(object):
             raise IOError
 
         band = temp_dataset.GetRasterBand(1)
-        checksum = band.Checksum()
-        log.info(f'This DEM tile checksum is {str(checksum)}')
+        has_data = np.any(band.ReadAsArray())
+        log.info(f'This DEM tile holds data: {str(has_data)}')
 
-        if checksum > 0:
+        if has_data:
             # extract the temporary tile from landcover
             terrain_resample = pjoin(output_folder, tile_name + '.img')
 
-- 
2.43.0


From 0ee6226783dbd11fa5f0007d8c4e4099b0fef3c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:52 +0000
Subject: [PATCH 20/22] fix: shielding does not change the working directory

convo_combine changed into the shielding folder, so with an output directory
(or input files) given relative to the working directory the topographic
calculation did not find the DEM tile.
---
 shielding/shield_mult.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/shielding/shield_mult.py b/shielding/shield_mult.py
index 213e8fa..b39106d 100644
--- a/shielding/shield_mult.py
+++ b/shielding/shield_mult.py
@@ -334,8 +334,8 @@ def convo_combine(ms_orig, slope_array, aspect_array, tile_extents_nobuffer):
         os.remove(ms_orig)
     except:
         pass
-    os.chdir(ms_folder)
-    filelist = glob.glob('*.xml')
+    # without changing the working directory: paths may be relative to it
+    filelist = glob.glob(pjoin(glob.escape(ms_folder), '*.xml'))
 
     log.debug("useless xml files: {0}".format(repr(filelist)))
 
-- 
2.43.0


From 5acbdae4cde68f153188c59c96c8c45dd760f17f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:04:13 +0000
Subject: [PATCH 21/22] fix: write verbose messages to standard output, as
 documented

---
 utilities/files.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utilities/files.py b/utilities/files.py
index 0d27f9f..dd19454 100644
--- a/utilities/files.py
+++ b/utilities/files.py
@@ -272,7 +272,7 @@ def fl_start_log(log_file, log_level, verbose=False, datestamp=False,
         if verbose and sys.stdout.isatty():
             # If set to true, all logging calls will also be printed to the
             # console (i.e. STDOUT)
-            console = logging.StreamHandler()
+            console = logging.StreamHandler(sys.stdout)
             console.setLevel(getattr(logging, log_level))
             formatter = logging.Formatter('%(asctime)s: %(message)s',
                                           '%H:%M:%S', )
-- 
2.43.0


From d8e053a38678b2ff6c03cba11f3ea10e5bcaecf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:04:33 +0000
Subject: [PATCH 22/22] fix: keep the configured log file when another process
 creates its directory

---
 all_multipliers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/all_multipliers.py b/all_multipliers.py
index 657331e..9c6d60f 100755
--- a/all_multipliers.py
+++ b/all_multipliers.py
@@ -715,7 +715,7 @@ def run():
     # If log file directory does not exist, create it
     if not isdir(logdir):
         try:
-            os.makedirs(logdir)
+            os.makedirs(logdir, exist_ok=True)
         except OSError:
             logfile = pjoin(os.getcwd(), 'multipliers.log')
 
-- 
2.43.0

