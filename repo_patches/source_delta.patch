From 86d6e15b49189dab932cb9ddc1c454268bc4ba8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:37 +0000
Subject: [PATCH 01/32] fix: keep the minutes and seconds of formatted geodetic
 coordinates below 60

---
 src/aws/osml/photogrammetry/coordinates.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/aws/osml/photogrammetry/coordinates.py b/src/aws/osml/photogrammetry/coordinates.py
index aab4709..d5c4567 100644
--- a/src/aws/osml/photogrammetry/coordinates.py
+++ b/src/aws/osml/photogrammetry/coordinates.py
@@ -159,18 +159,17 @@ class GeodeticWorldCoordinate(WorldCoordinate):
         if lat_degrees < 0:
             lat_degrees *= -1.0
             lh = "S"
-        ld = int(lat_degrees)
-        lm = int(round(lat_degrees - ld, 6) * 60)
-        ls = int(round(lat_degrees - ld - lm / 60, 6) * 3600)
+        # Split the whole number of arc-seconds so that minutes and seconds always stay below 60
+        lat_minutes, ls = divmod(int(round(lat_degrees * 3600, 3)), 60)
+        ld, lm = divmod(lat_minutes, 60)
 
         lon_degrees = np.degrees(self.longitude)
         oh = "E"
         if lon_degrees < 0:
             lon_degrees *= -1.0
             oh = "W"
-        od = int(lon_degrees)
-        om = int(round(lon_degrees - od, 6) * 60)
-        os = int(round(lon_degrees - od - om / 60, 6) * 3600)
+        lon_minutes, os = divmod(int(round(lon_degrees * 3600, 3)), 60)
+        od, om = divmod(lon_minutes, 60)
 
         result = []
         i = 0
-- 
2.43.0


From 3daa17bdc03673044b93bf6e30336bc91a2fa0a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:44 +0000
Subject: [PATCH 02/32] fix: assign locations on the western and southern map
 edge to the first tile

---
 src/aws/osml/image_processing/map_tileset_wmq.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/aws/osml/image_processing/map_tileset_wmq.py b/src/aws/osml/image_processing/map_tileset_wmq.py
index 4ed12cf..310ee77 100644
--- a/src/aws/osml/image_processing/map_tileset_wmq.py
+++ b/src/aws/osml/image_processing/map_tileset_wmq.py
@@ -130,8 +130,9 @@ class WebMercatorQuadMapTileSet(MapTileSet):
         :param y_pixels: the y location in pixels
         :return: the col, row tuple for the corresponding tile index
         """
-        tile_col = int(math.ceil(x_pixels / float(self.tile_size)) - 1)
-        tile_row = int(math.ceil(y_pixels / float(self.tile_size)) - 1)
+        # Locations exactly on the western / southern edge of the map (pixel 0) belong to the first column / row
+        tile_col = max(0, int(math.ceil(x_pixels / float(self.tile_size)) - 1))
+        tile_row = max(0, int(math.ceil(y_pixels / float(self.tile_size)) - 1))
         return tile_col, tile_row
 
     def _calculate_tile_bounds_meters(self, tile_id: MapTileId) -> tuple[float, float, float, float]:
-- 
2.43.0


From acd28a851694efa88c47de1fbdbd1acf3730efd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:51 +0000
Subject: [PATCH 03/32] fix: accept 0 as the value of the last histogram bucket

---
 src/aws/osml/gdal/dynamic_range_adjustment.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/aws/osml/gdal/dynamic_range_adjustment.py b/src/aws/osml/gdal/dynamic_range_adjustment.py
index 2be82b6..828f012 100644
--- a/src/aws/osml/gdal/dynamic_range_adjustment.py
+++ b/src/aws/osml/gdal/dynamic_range_adjustment.py
@@ -48,9 +48,9 @@ class DRAParameters:
         :return: a set of DRA parameters containing recommended and actual ranges of values
         """
         num_histogram_bins = len(counts)
-        if not first_bucket_value:
+        if first_bucket_value is None:
             first_bucket_value = 0
-        if not last_bucket_value:
+        if last_bucket_value is None:
             last_bucket_value = num_histogram_bins
 
         # Find the first and last non-zero counts
-- 
2.43.0


From e41db11669ce3640eff1b89441745c29cb2374c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:57 +0000
Subject: [PATCH 04/32] fix: never suggest a dynamic range with minimum above
 maximum

---
 src/aws/osml/gdal/dynamic_range_adjustment.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/aws/osml/gdal/dynamic_range_adjustment.py b/src/aws/osml/gdal/dynamic_range_adjustment.py
index 828f012..e104d08 100644
--- a/src/aws/osml/gdal/dynamic_range_adjustment.py
+++ b/src/aws/osml/gdal/dynamic_range_adjustment.py
@@ -80,6 +80,9 @@ class DRAParameters:
         while cumulative_counts[e_max] > high_threshold and e_max > 0:
             e_max -= 1
 
+        # When most of the counts fall into a single bucket both searches can pass each other
+        e_max = max(e_max, e_min)
+
         min_value = max([actual_min_value, e_min - a * (e_max - e_min)])
         max_value = min([actual_max_value, e_max + b * (e_max - e_min)])
 
-- 
2.43.0


From 654e4ed857e89d31967a2e6ee1ed582fec184144 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:02 +0000
Subject: [PATCH 05/32] fix: scale min-max normalization by the range of pixel
 values

---
 src/aws/osml/image_processing/gdal_tile_factory.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/aws/osml/image_processing/gdal_tile_factory.py b/src/aws/osml/image_processing/gdal_tile_factory.py
index a694d09..3732db4 100644
--- a/src/aws/osml/image_processing/gdal_tile_factory.py
+++ b/src/aws/osml/image_processing/gdal_tile_factory.py
@@ -457,7 +457,7 @@ class GDALTileFactory:
         max_value = band.GetMaximum() if band.GetMaximum() is not None else np.max(pixel_array)
 
         # Apply the Min-Max normalization
-        normalized_pixel = (pixel_array - min_value) * (255.0 / max(max_value, 1.0))
+        normalized_pixel = (pixel_array - min_value) * (255.0 / max(max_value - min_value, 1.0))
         normalized_pixel = np.clip(normalized_pixel, 0.0, 255.0)
         return normalized_pixel.astype(np.uint8)
 
-- 
2.43.0


From 06e44dfac9460a69a54ed6efc8c0558dc3e65fff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:07 +0000
Subject: [PATCH 06/32] fix: build the spatial index from feature geometries

---
 src/aws/osml/features/feature_index.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/aws/osml/features/feature_index.py b/src/aws/osml/features/feature_index.py
index 6fd8b90..ba7681e 100644
--- a/src/aws/osml/features/feature_index.py
+++ b/src/aws/osml/features/feature_index.py
@@ -5,6 +5,7 @@ from typing import Iterable, Optional
 
 import geojson
 import shapely
+import shapely.geometry
 
 from .imaged_feature_property_accessor import ImagedFeaturePropertyAccessor
 
@@ -51,7 +52,7 @@ class STRFeature2DSpatialIndex(Feature2DSpatialIndex):
         if use_image_geometries and property_accessor is not None:
             geometries = [property_accessor.find_image_geometry(feature) for feature in self.features]
         else:
-            geometries = [(shapely.shape(feature.geometry), feature) for feature in self.features]
+            geometries = [shapely.geometry.shape(feature.geometry) for feature in self.features]
 
         self.index = shapely.STRtree(geometries)
 
-- 
2.43.0


From 1866619ade00c931ad057cf2ca29282b22eb5229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:13 +0000
Subject: [PATCH 07/32] fix: compute the power of integer SAR pixels without
 overflow

---
 src/aws/osml/image_processing/sar_complex_imageop.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/aws/osml/image_processing/sar_complex_imageop.py b/src/aws/osml/image_processing/sar_complex_imageop.py
index 4fd590c..d7d4abd 100644
--- a/src/aws/osml/image_processing/sar_complex_imageop.py
+++ b/src/aws/osml/image_processing/sar_complex_imageop.py
@@ -47,6 +47,9 @@ def complex_to_power_value(complex_data: np.ndarray) -> np.ndarray:
     :param complex_data: the SAR complex image signal with real and imaginary components
     :return: the power values
     """
+    if np.issubdtype(np.asarray(complex_data).dtype, np.integer):
+        # The squares of integer pixels (e.g. RE16I_IM16I) do not fit in the original pixel type
+        complex_data = np.asarray(complex_data, dtype=np.float64)
     return np.sum(np.square(complex_data), axis=0)
 
 
-- 
2.43.0


From d5135c940555a4b2b3466c5adba59034168f2906 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:18 +0000
Subject: [PATCH 08/32] fix: skip geolocation when no feature has an image
 geometry

---
 src/aws/osml/features/geolocation.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/aws/osml/features/geolocation.py b/src/aws/osml/features/geolocation.py
index be5a969..f16a7cf 100644
--- a/src/aws/osml/features/geolocation.py
+++ b/src/aws/osml/features/geolocation.py
@@ -152,6 +152,10 @@ class Geolocator:
             feature_bounds[2] = max(feature_bounds[2], image_geometry_bbox[2])
             feature_bounds[3] = max(feature_bounds[3], image_geometry_bbox[3])
 
+        if feature_bounds[0] > feature_bounds[2]:
+            logging.warning("None of the features have a valid detection shape.")
+            return
+
         # Expand the bounds to handle edge case where the features are all located at a single point or line.
         feature_bounds[0] -= 10
         feature_bounds[1] -= 10
-- 
2.43.0


From 2200a534f5bf310a6ea4f748c56e8c9b9b2f18b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:24 +0000
Subject: [PATCH 09/32] fix: support range adjustment of constant bands

---
 src/aws/osml/gdal/gdal_utils.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/aws/osml/gdal/gdal_utils.py b/src/aws/osml/gdal/gdal_utils.py
index e0f6b76..c73d36b 100644
--- a/src/aws/osml/gdal/gdal_utils.py
+++ b/src/aws/osml/gdal/gdal_utils.py
@@ -152,7 +152,12 @@ def get_type_and_scales(
             min_value = stats[0]
             max_value = stats[1]
 
-            num_buckets = int(max_value - min_value)
+            if max_value <= min_value:
+                # A histogram of a constant band can not be computed and there is no range to adjust
+                scale_params.append([min_value, max_value, output_min, output_max])
+                continue
+
+            num_buckets = max(1, int(max_value - min_value))
             if band_type == gdalconst.GDT_Float32 or band_type == gdalconst.GDT_Float64:
                 num_buckets = 255
 
-- 
2.43.0


From f2b512181b50de42dbd9a7bcf5a1ec750cfae421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:52 +0000
Subject: [PATCH 10/32] fix: relate every SIDD chip to the original metadata
 instead of the previous chip

---
 src/aws/osml/image_processing/sidd_updater.py | 28 +++++++++++--------
 1 file changed, 17 insertions(+), 11 deletions(-)

diff --git a/src/aws/osml/image_processing/sidd_updater.py b/src/aws/osml/image_processing/sidd_updater.py
index 67583a5..ef33968 100644
--- a/src/aws/osml/image_processing/sidd_updater.py
+++ b/src/aws/osml/image_processing/sidd_updater.py
@@ -26,6 +26,12 @@ class SIDDUpdater:
             parser = XmlParser()
             self.sidd = parser.from_string(self.xml_str)
 
+        # Here we're storing off the original geometric chip so every chip created from this image is related to the
+        # original full image and not to a previously created chip.
+        self.original_geometric_chip = None
+        if self.sidd.downstream_reprocessing:
+            self.original_geometric_chip = self.sidd.downstream_reprocessing.geometric_chip
+
     def update_image_data_for_chip(self, chip_bounds: List[int], output_size: Optional[Tuple[int, int]]) -> None:
         """
         This adds or updates the SIDD GeometricChip structure so that the ChipSize and original corner coordinates
@@ -87,27 +93,27 @@ class SIDDUpdater:
             (chip_bounds[0] + chip_bounds[2] - 1, chip_bounds[1] + chip_bounds[3] - 1),
             (chip_bounds[0], chip_bounds[1] + chip_bounds[3] - 1),
         ]
-        if self.sidd.downstream_reprocessing.geometric_chip:
+        if self.original_geometric_chip:
             original_chip_size = (
-                self.sidd.downstream_reprocessing.geometric_chip.chip_size.col,
-                self.sidd.downstream_reprocessing.geometric_chip.chip_size.row,
+                self.original_geometric_chip.chip_size.col,
+                self.original_geometric_chip.chip_size.row,
             )
             original_corners = [
                 (
-                    self.sidd.downstream_reprocessing.geometric_chip.original_upper_left_coordinate.col,
-                    self.sidd.downstream_reprocessing.geometric_chip.original_upper_left_coordinate.row,
+                    self.original_geometric_chip.original_upper_left_coordinate.col,
+                    self.original_geometric_chip.original_upper_left_coordinate.row,
                 ),
                 (
-                    self.sidd.downstream_reprocessing.geometric_chip.original_upper_right_coordinate.col,
-                    self.sidd.downstream_reprocessing.geometric_chip.original_upper_right_coordinate.row,
+                    self.original_geometric_chip.original_upper_right_coordinate.col,
+                    self.original_geometric_chip.original_upper_right_coordinate.row,
                 ),
                 (
-                    self.sidd.downstream_reprocessing.geometric_chip.original_lower_right_coordinate.col,
-                    self.sidd.downstream_reprocessing.geometric_chip.original_lower_right_coordinate.row,
+                    self.original_geometric_chip.original_lower_right_coordinate.col,
+                    self.original_geometric_chip.original_lower_right_coordinate.row,
                 ),
                 (
-                    self.sidd.downstream_reprocessing.geometric_chip.original_lower_left_coordinate.col,
-                    self.sidd.downstream_reprocessing.geometric_chip.original_lower_left_coordinate.row,
+                    self.original_geometric_chip.original_lower_left_coordinate.col,
+                    self.original_geometric_chip.original_lower_left_coordinate.row,
                 ),
             ]
 
-- 
2.43.0


From c89d008c9ad161c67a40eccb1d097223e22cbfcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:59 +0000
Subject: [PATCH 11/32] fix: chip SIDD images that are a single pixel wide or
 high

---
 src/aws/osml/image_processing/sidd_updater.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/aws/osml/image_processing/sidd_updater.py b/src/aws/osml/image_processing/sidd_updater.py
index ef33968..7089a11 100644
--- a/src/aws/osml/image_processing/sidd_updater.py
+++ b/src/aws/osml/image_processing/sidd_updater.py
@@ -167,8 +167,8 @@ class SIDDUpdater:
         :return: the [x, y] coordinate of the pixel in the original image
         """
         # Step 1: Normalize the chip coordinates
-        u = chip_coordinate[1] / (chip_size[1] - 1)
-        v = chip_coordinate[0] / (chip_size[0] - 1)
+        u = chip_coordinate[1] / (chip_size[1] - 1) if chip_size[1] > 1 else 0.0
+        v = chip_coordinate[0] / (chip_size[0] - 1) if chip_size[0] > 1 else 0.0
 
         # Step 2: Compute original full image row coordinate bi-linear coefficients
         a_r = original_corner_coordinates[0][1]
-- 
2.43.0


From ca8fe7d214bc08593bab9357cb7e6972ddd1faa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:38 +0000
Subject: [PATCH 12/32] fix: match SIDD chip corners to the first and last
 pixels of the chip

---
 src/aws/osml/gdal/sidd_sensor_model_builder.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/aws/osml/gdal/sidd_sensor_model_builder.py b/src/aws/osml/gdal/sidd_sensor_model_builder.py
index ce1b25f..56d38a5 100644
--- a/src/aws/osml/gdal/sidd_sensor_model_builder.py
+++ b/src/aws/osml/gdal/sidd_sensor_model_builder.py
@@ -114,12 +114,13 @@ class SIDDSensorModelBuilder(SensorModelBuilder):
             # This 4 corner transformation handles images that are cropped, rotated, and scaled, from the full
             # SIDD image grid.
             geo_chip = sidd.downstream_reprocessing.geometric_chip
-            chip_num_rows = geo_chip.chip_size.row
-            chip_num_cols = geo_chip.chip_size.col
+            # The original corner coordinates are the locations of the first and last pixels of the chip
+            last_row = geo_chip.chip_size.row - 1
+            last_col = geo_chip.chip_size.col - 1
 
             chipped_image_coords = [
                 ImageCoordinate(coord)
-                for coord in [[0, 0], [chip_num_cols, 0], [chip_num_cols, chip_num_rows], [0, chip_num_rows]]
+                for coord in [[0, 0], [last_col, 0], [last_col, last_row], [0, last_row]]
             ]
             full_image_coords = [
                 ImageCoordinate([x.col, x.row])
-- 
2.43.0


From 30d2d6e722817e92b7efc8d154d12e4ba69d9acd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:43 +0000
Subject: [PATCH 13/32] fix: use the image center for the default elevation of
 map tiles

---
 src/aws/osml/image_processing/gdal_tile_factory.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/aws/osml/image_processing/gdal_tile_factory.py b/src/aws/osml/image_processing/gdal_tile_factory.py
index 3732db4..154f80a 100644
--- a/src/aws/osml/image_processing/gdal_tile_factory.py
+++ b/src/aws/osml/image_processing/gdal_tile_factory.py
@@ -183,7 +183,7 @@ class GDALTileFactory:
         # the image.
         center_x = self.raster_dataset.RasterXSize / 2
         center_y = self.raster_dataset.RasterYSize / 2
-        geo_image_center = self.sensor_model.image_to_world(ImageCoordinate([center_y, center_x]))
+        geo_image_center = self.sensor_model.image_to_world(ImageCoordinate([center_x, center_y]))
 
         def world_to_image_func(lon, lat):
             # TODO: Assign the elevation from a DEM
-- 
2.43.0


From 8a1fe33b5e26668b976cbe6cbfde42913d0c0884 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:48 +0000
Subject: [PATCH 14/32] fix: create map tiles that are not square with the
 requested width and height

---
 src/aws/osml/image_processing/gdal_tile_factory.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/aws/osml/image_processing/gdal_tile_factory.py b/src/aws/osml/image_processing/gdal_tile_factory.py
index 154f80a..45a5194 100644
--- a/src/aws/osml/image_processing/gdal_tile_factory.py
+++ b/src/aws/osml/image_processing/gdal_tile_factory.py
@@ -276,16 +276,16 @@ class GDALTileFactory:
         # Create 2D linear interpolators that map the pixels in the map tile to x and y values in the source image.
         # This will allow us to efficiently generate the maps needed by the opencv::remap function for every pixel
         # in the destination image.
-        src_x_interpolator = RectBivariateSpline(pixel_x, pixel_y, src_x, kx=1, ky=1)
-        src_y_interpolator = RectBivariateSpline(pixel_x, pixel_y, src_y, kx=1, ky=1)
+        src_x_interpolator = RectBivariateSpline(pixel_y, pixel_x, src_x, kx=1, ky=1)
+        src_y_interpolator = RectBivariateSpline(pixel_y, pixel_x, src_y, kx=1, ky=1)
 
         # Create the map1 and map2 arrays that capture the non-linear relationship between each pixel in the map tile
         # (dst) to pixels in the original image (src). See opencv::remap documentation for definitions of these
         # parameters.
         dst_x = np.linspace(0, tile_size[0] - 1, tile_size[0])
         dst_y = np.linspace(0, tile_size[1] - 1, tile_size[1])
-        map1 = src_x_interpolator(dst_x, dst_y).astype(np.float32)
-        map2 = src_y_interpolator(dst_x, dst_y).astype(np.float32)
+        map1 = src_x_interpolator(dst_y, dst_x).astype(np.float32)
+        map2 = src_y_interpolator(dst_y, dst_x).astype(np.float32)
 
         logger.debug(
             f"Sanity check remap array sizes. They should match the desired map tile size {tile_size[0]}x{tile_size[1]}"
-- 
2.43.0


From 93f1a6a286ec764b24db7f8fc8ab713c8ea2035e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:54 +0000
Subject: [PATCH 15/32] fix: return no map tile when its area only touches the
 edge of the image

---
 src/aws/osml/image_processing/gdal_tile_factory.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/aws/osml/image_processing/gdal_tile_factory.py b/src/aws/osml/image_processing/gdal_tile_factory.py
index 45a5194..4193c30 100644
--- a/src/aws/osml/image_processing/gdal_tile_factory.py
+++ b/src/aws/osml/image_processing/gdal_tile_factory.py
@@ -210,10 +210,10 @@ class GDALTileFactory:
             int(np.ceil(np.max(src_y))),
         )
         if (
-            src_bbox[0] > self.raster_dataset.RasterXSize
-            or src_bbox[1] > self.raster_dataset.RasterYSize
-            or src_bbox[2] < 0
-            or src_bbox[3] < 0
+            src_bbox[0] >= self.raster_dataset.RasterXSize
+            or src_bbox[1] >= self.raster_dataset.RasterYSize
+            or src_bbox[2] <= 0
+            or src_bbox[3] <= 0
         ):
             # Source bbox does not intersect the image, no tile to create
             logger.debug(
-- 
2.43.0


From cc84f094e7125092ef8fccd55c09dae4b6b37f70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:47 +0000
Subject: [PATCH 16/32] fix: find image locations anywhere in the RSM ground
 domain

---
 .../photogrammetry/replacement_sensor_model.py     | 14 +++-----------
 1 file changed, 3 insertions(+), 11 deletions(-)

diff --git a/src/aws/osml/photogrammetry/replacement_sensor_model.py b/src/aws/osml/photogrammetry/replacement_sensor_model.py
index 3f4cb7a..a779988 100644
--- a/src/aws/osml/photogrammetry/replacement_sensor_model.py
+++ b/src/aws/osml/photogrammetry/replacement_sensor_model.py
@@ -534,21 +534,13 @@ class RSMPolynomialSensorModel(RSMSensorModel):
 
         # Iteratively adjust the initial guess to minimize the distance to the target image coordinate. We are only
         # allowing the x,y components to vary here and the z is fixed to the elevation model used by the ground
-        # domain. The starting simplex is estimated as a triangle centered in the ground domain.
+        # domain. The starting simplex is estimated as a triangle centered in the ground domain. Note that the search
+        # is not bounded to the ground domain: clipping the simplex at the bounds flattens it and the search then
+        # stops far away from locations inside the domain.
         res = minimize(
             distance_to_target_coordinate,
             initial_guess,
             method="Nelder-Mead",
-            bounds=[
-                (
-                    self.context.ground_domain.geodetic_lonlat_bbox[0],
-                    self.context.ground_domain.geodetic_lonlat_bbox[2],
-                ),
-                (
-                    self.context.ground_domain.geodetic_lonlat_bbox[1],
-                    self.context.ground_domain.geodetic_lonlat_bbox[3],
-                ),
-            ],
             options={
                 "xatol": radians(0.000001),
                 "fatol": 0.5,
-- 
2.43.0


From ac9973538b1573d21bb07f446e0db55591e30280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:57:52 +0000
Subject: [PATCH 17/32] fix: an unreadable CSCRNA TRE gives no sensor model
 instead of an exception

---
 src/aws/osml/gdal/projective_sensor_model_builder.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/aws/osml/gdal/projective_sensor_model_builder.py b/src/aws/osml/gdal/projective_sensor_model_builder.py
index c0ae65d..32e6c17 100644
--- a/src/aws/osml/gdal/projective_sensor_model_builder.py
+++ b/src/aws/osml/gdal/projective_sensor_model_builder.py
@@ -50,9 +50,14 @@ class ProjectiveSensorModelBuilder(SensorModelBuilder):
             logging.debug("No CSCRNA TRE found.")
             return None
 
-        return ProjectiveSensorModelBuilder.build_projective_sensor_model(
-            cscrna_tre, self.full_image_width, self.full_image_height
-        )
+        try:
+            return ProjectiveSensorModelBuilder.build_projective_sensor_model(
+                cscrna_tre, self.full_image_width, self.full_image_height
+            )
+        except ValueError as ve:
+            logging.warning("Unable to parse CSCRNA TRE found in XML metadata. No SensorModel created.")
+            logging.warning(str(ve))
+            return None
 
     @staticmethod
     def build_projective_sensor_model(
-- 
2.43.0


From b04c4a71ae133848bf57e0807f47cf88c1ad9580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:57:52 +0000
Subject: [PATCH 18/32] fix: a missing RSM section gives no sensor model
 instead of a KeyError

---
 src/aws/osml/gdal/rsm_sensor_model_builder.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/aws/osml/gdal/rsm_sensor_model_builder.py b/src/aws/osml/gdal/rsm_sensor_model_builder.py
index 2b59c10..18c2684 100644
--- a/src/aws/osml/gdal/rsm_sensor_model_builder.py
+++ b/src/aws/osml/gdal/rsm_sensor_model_builder.py
@@ -311,6 +311,8 @@ class RSMSensorModelBuilder(SensorModelBuilder):
         for row in range(1, num_section_rows + 1):
             row_of_sensor_models = []
             for col in range(1, num_section_cols + 1):
+                if (row, col) not in sensor_model_grid_map:
+                    raise ValueError(f"Missing RSMPCA TRE for section {row}, {col} of the image")
                 row_of_sensor_models.append(sensor_model_grid_map[(row, col)])
             section_sensor_model_grid.append(row_of_sensor_models)
 
-- 
2.43.0


From 524a6dee8bff2669d4673dea62c763b57c6c5e8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:57:52 +0000
Subject: [PATCH 19/32] fix: an unreadable ICHIPB TRE leaves the sensor model
 unchanged as its warning says

---
 src/aws/osml/gdal/sensor_model_factory.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/aws/osml/gdal/sensor_model_factory.py b/src/aws/osml/gdal/sensor_model_factory.py
index 9bd3636..2427ba5 100644
--- a/src/aws/osml/gdal/sensor_model_factory.py
+++ b/src/aws/osml/gdal/sensor_model_factory.py
@@ -33,6 +33,7 @@ class ChippedImageInfoFacade:
 
         :return: None
         """
+        self.is_valid = False
         try:
             # Loop through the Output Product (OP) and Full Image (FI) fields in the ICHIPB TRE and construct
             # the corresponding image coordinates needed to create a chipped sensor model.
@@ -48,6 +49,7 @@ class ChippedImageInfoFacade:
 
             self.full_image_width = get_tre_field_value(ichipb_tre, "FI_COL", int)
             self.full_image_height = get_tre_field_value(ichipb_tre, "FI_ROW", int)
+            self.is_valid = True
         except ValueError as ve:
             logging.warning("Unable to parse ICHIPB TRE found in XML metadata. SensorModel is unchanged.")
             logging.warning(str(ve))
@@ -144,8 +146,11 @@ class SensorModelFactory:
             ichipb_tre = self.xml_tres.find("./tre[@name='ICHIPB']")
             if ichipb_tre is not None:
                 chipped_image_info = ChippedImageInfoFacade(ichipb_tre)
-                full_image_width = chipped_image_info.full_image_width
-                full_image_height = chipped_image_info.full_image_height
+                if chipped_image_info.is_valid:
+                    full_image_width = chipped_image_info.full_image_width
+                    full_image_height = chipped_image_info.full_image_height
+                else:
+                    chipped_image_info = None
 
             # Attempt to build a robust sensor model from either RSM or RPC metadata in the TREs. These
             # sensor models always reference the full image so if this is a chip we wrap the resulting sensor
-- 
2.43.0


From eb66d02d4005398152a2271b3bbff076d45357ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:03:26 +0000
Subject: [PATCH 20/32] fix: geolocation covers image bounding boxes larger
 than the image geometry

---
 src/aws/osml/features/geolocation.py | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/aws/osml/features/geolocation.py b/src/aws/osml/features/geolocation.py
index f16a7cf..88d8de1 100644
--- a/src/aws/osml/features/geolocation.py
+++ b/src/aws/osml/features/geolocation.py
@@ -143,14 +143,18 @@ class Geolocator:
         # benefit by creating the same resolution of approximation grid over the smaller area.
         feature_bounds = [math.inf, math.inf, -math.inf, -math.inf]
         for feature in features:
-            image_geometry = self.property_accessor.find_image_geometry(feature)
-            if image_geometry is None:
-                continue
-            image_geometry_bbox = image_geometry.bounds
-            feature_bounds[0] = min(feature_bounds[0], image_geometry_bbox[0])
-            feature_bounds[1] = min(feature_bounds[1], image_geometry_bbox[1])
-            feature_bounds[2] = max(feature_bounds[2], image_geometry_bbox[2])
-            feature_bounds[3] = max(feature_bounds[3], image_geometry_bbox[3])
+            # The "imageBBox" of a feature may be larger than its "imageGeometry" and both will be geolocated
+            for image_geometry in [
+                self.property_accessor.find_image_geometry(feature),
+                self.property_accessor.get_image_bbox(feature),
+            ]:
+                if image_geometry is None:
+                    continue
+                image_geometry_bbox = image_geometry.bounds
+                feature_bounds[0] = min(feature_bounds[0], image_geometry_bbox[0])
+                feature_bounds[1] = min(feature_bounds[1], image_geometry_bbox[1])
+                feature_bounds[2] = max(feature_bounds[2], image_geometry_bbox[2])
+                feature_bounds[3] = max(feature_bounds[3], image_geometry_bbox[3])
 
         if feature_bounds[0] > feature_bounds[2]:
             logging.warning("None of the features have a valid detection shape.")
-- 
2.43.0


From 91119a26e74458c82278159318f3ec354d5b0828 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:21:05 +0000
Subject: [PATCH 21/32] fix: stretch blank SAR images to black instead of NaN

---
 src/aws/osml/image_processing/sar_complex_imageop.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/aws/osml/image_processing/sar_complex_imageop.py b/src/aws/osml/image_processing/sar_complex_imageop.py
index d7d4abd..d2db208 100644
--- a/src/aws/osml/image_processing/sar_complex_imageop.py
+++ b/src/aws/osml/image_processing/sar_complex_imageop.py
@@ -97,6 +97,9 @@ def histogram_stretch_mag_values(magnitude_values: np.ndarray, scale_factor: flo
     :return: the quantized grayscale image clipped to the range of [0:255]
     """
     mean_value = np.mean(magnitude_values[np.isfinite(magnitude_values)])
+    if mean_value == 0:
+        # Every pixel is zero, there is nothing to stretch
+        return np.zeros_like(magnitude_values, dtype=np.float64)
     u = 1 / (scale_factor * mean_value)
     return np.clip(255.0 * u * magnitude_values, 0.0, 255.0)
 
@@ -118,6 +121,9 @@ def quarter_power_mag_values(
     mean_value = precomputed_mean
     if mean_value is None:
         mean_value = np.mean(sqrt_magnitude[np.isfinite(sqrt_magnitude)])
+    if mean_value == 0:
+        # Every pixel is zero, there is nothing to scale
+        return np.zeros_like(sqrt_magnitude, dtype=np.float64)
     b = 1 / (scale_factor * mean_value)
     return np.clip(255.0 * b * sqrt_magnitude, 0.0, 255.0)
 
-- 
2.43.0


From e580f71a4d23c393b0c3872809d166e12df3f7d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:21:57 +0000
Subject: [PATCH 22/32] fix: keep the sensor models already built when better
 metadata is unreadable

---
 src/aws/osml/gdal/sensor_model_factory.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/aws/osml/gdal/sensor_model_factory.py b/src/aws/osml/gdal/sensor_model_factory.py
index 2427ba5..21d7539 100644
--- a/src/aws/osml/gdal/sensor_model_factory.py
+++ b/src/aws/osml/gdal/sensor_model_factory.py
@@ -173,15 +173,17 @@ class SensorModelFactory:
             if SensorModelTypes.PROJECTIVE in self.selected_sensor_model_types:
                 cscrna_tre = self.xml_tres.find("./tre[@name='CSCRNA']")
                 if cscrna_tre is not None:
-                    approximate_sensor_model = ProjectiveSensorModelBuilder(
+                    cscrna_sensor_model = ProjectiveSensorModelBuilder(
                         self.xml_tres, full_image_width, full_image_height
                     ).build()
-                    if approximate_sensor_model is not None and chipped_image_info is not None:
-                        approximate_sensor_model = ChippedImageSensorModel(
+                    if cscrna_sensor_model is not None and chipped_image_info is not None:
+                        cscrna_sensor_model = ChippedImageSensorModel(
                             chipped_image_info.full_image_coordinates,
                             chipped_image_info.chipped_image_coordinates,
-                            approximate_sensor_model,
+                            cscrna_sensor_model,
                         )
+                    # An unreadable TRE does not replace the approximate model built from other metadata
+                    approximate_sensor_model = cscrna_sensor_model or approximate_sensor_model
 
                 # TODO: Maybe create a projective sensor model from corner locations derived from the precision model
                 # TODO: Consider using the rough corners from IGEOLO
@@ -199,10 +201,10 @@ class SensorModelFactory:
                     if "SIDD" in xml_str:
                         # SIDD images will often contain SICD XML metadata as well but the SIDD should come first
                         # so we can stop processing other XML data segments
-                        precision_sensor_model = SIDDSensorModelBuilder(sidd_xml=xml_str).build()
+                        precision_sensor_model = SIDDSensorModelBuilder(sidd_xml=xml_str).build() or precision_sensor_model
                         break
                     elif "SICD" in xml_str and SensorModelTypes.SICD in self.selected_sensor_model_types:
-                        precision_sensor_model = SICDSensorModelBuilder(sicd_xml=xml_str).build()
+                        precision_sensor_model = SICDSensorModelBuilder(sicd_xml=xml_str).build() or precision_sensor_model
                         break
 
         # If we have both an approximate and a precision sensor model return them as a composite so applications
-- 
2.43.0


From 01492534c65b3c3e56faa99a3caecfd7d9c2e606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:21:57 +0000
Subject: [PATCH 23/32] fix: build no SICD sensor model without a projection
 for its image formation

---
 src/aws/osml/gdal/sicd_sensor_model_builder.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/aws/osml/gdal/sicd_sensor_model_builder.py b/src/aws/osml/gdal/sicd_sensor_model_builder.py
index 5cb798d..b97804e 100644
--- a/src/aws/osml/gdal/sicd_sensor_model_builder.py
+++ b/src/aws/osml/gdal/sicd_sensor_model_builder.py
@@ -152,6 +152,12 @@ class SICDSensorModelBuilder(SensorModelBuilder):
                 projection_set = RGAZCOMPProjectionSet(
                     scp_ecf=scp_ecf, az_scale_factor=sicd.rg_az_comp.az_sf, coa_time_poly=time_coa_poly, arp_poly=arp_poly
                 )
+            else:
+                logger.warning(
+                    f"SICD image with unknown image formation algorithm {sicd.image_formation.image_form_algo}. "
+                    f"No sensor model created."
+                )
+                return None
         elif sicd.grid.type_value.value == sicd121.ImageGridType.RGZERO.value:
             projection_set = INCAProjectionSet(
                 r_ca_scp=sicd.rma.inca.r_ca_scp,
-- 
2.43.0


From 5c32c897be2c818562ff01caed936242fc18e692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:35:50 +0000
Subject: [PATCH 24/32] fix: adjust the range of images without band statistics

The minimum and maximum of the tile were NumPy scalars: GetHistogram rejects
them with a TypeError and their difference overflows for signed pixel types.
---
 src/aws/osml/image_processing/gdal_tile_factory.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/aws/osml/image_processing/gdal_tile_factory.py b/src/aws/osml/image_processing/gdal_tile_factory.py
index 4193c30..2be911a 100644
--- a/src/aws/osml/image_processing/gdal_tile_factory.py
+++ b/src/aws/osml/image_processing/gdal_tile_factory.py
@@ -453,8 +453,8 @@ class GDALTileFactory:
         """
         # Get the minimum and maximum values from the entire GDAL dataset. If the minimum and maximum values are
         # not available, calculate them from the tile.
-        min_value = band.GetMinimum() if band.GetMinimum() is not None else np.min(pixel_array)
-        max_value = band.GetMaximum() if band.GetMaximum() is not None else np.max(pixel_array)
+        min_value = band.GetMinimum() if band.GetMinimum() is not None else float(np.min(pixel_array))
+        max_value = band.GetMaximum() if band.GetMaximum() is not None else float(np.max(pixel_array))
 
         # Apply the Min-Max normalization
         normalized_pixel = (pixel_array - min_value) * (255.0 / max(max_value - min_value, 1.0))
@@ -472,8 +472,8 @@ class GDALTileFactory:
         """
         # Get the minimum and maximum values from the entire GDAL dataset. If the minimum and maximum values are
         # not available, calculate them from the tile.
-        min_value = band.GetMinimum() if band.GetMinimum() is not None else np.min(pixel_array)
-        max_value = band.GetMaximum() if band.GetMaximum() is not None else np.max(pixel_array)
+        min_value = band.GetMinimum() if band.GetMinimum() is not None else float(np.min(pixel_array))
+        max_value = band.GetMaximum() if band.GetMaximum() is not None else float(np.max(pixel_array))
 
         hist = band.GetHistogram(min=min_value, max=max_value, buckets=max(256, int(max_value - min_value)))
         dra_parameters = DRAParameters.from_counts(
-- 
2.43.0


From 94d4fa9eff279bcbb7f0cdd7a49edb9c8f5c7c93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:36:33 +0000
Subject: [PATCH 25/32] fix: sample map tiles at the pixel of the overview that
 was cropped

The remapping assumed the crop started at the scaled, fractional corner of the
source region while it starts at a whole pixel of the overview, so tiles were
shifted by up to a pixel; partially covered edge pixels were not read.
---
 src/aws/osml/image_processing/gdal_tile_factory.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/aws/osml/image_processing/gdal_tile_factory.py b/src/aws/osml/image_processing/gdal_tile_factory.py
index 2be911a..511bd84 100644
--- a/src/aws/osml/image_processing/gdal_tile_factory.py
+++ b/src/aws/osml/image_processing/gdal_tile_factory.py
@@ -241,7 +241,14 @@ class GDALTileFactory:
         )
         logger.debug(f"After Clip to Image Bounds src_bbox = {src_bbox}")
 
-        overview_bbox = tuple([int(x / 2**r_level) for x in src_bbox])
+        # The last row and column of the overview may only be partially covered by the image so they are rounded up
+        overview_scale = 2**r_level
+        overview_bbox = (
+            src_bbox[0] // overview_scale,
+            src_bbox[1] // overview_scale,
+            -(-src_bbox[2] // overview_scale),
+            -(-src_bbox[3] // overview_scale),
+        )
         logger.debug(f"Using r-level: {r_level}")
         logger.debug(f"overview_bbox = {overview_bbox}")
         logger.debug(f"Dataset size = {self.raster_dataset.RasterXSize},{self.raster_dataset.RasterYSize}")
@@ -270,8 +277,8 @@ class GDALTileFactory:
         # Update the src_x and src_y coordinates because we cropped the image and pulled it from a different
         # resolution level. The original coordinates assumed the image origin at 0,0 in a full resolution
         # image and adjusted the remapping coordinates to account for the added border
-        src_x = (src_x - src_bbox[0]) / 2**r_level + border_size
-        src_y = (src_y - src_bbox[1]) / 2**r_level + border_size
+        src_x = src_x / overview_scale - overview_bbox[0] + border_size
+        src_y = src_y / overview_scale - overview_bbox[1] + border_size
 
         # Create 2D linear interpolators that map the pixels in the map tile to x and y values in the source image.
         # This will allow us to efficiently generate the maps needed by the opencv::remap function for every pixel
-- 
2.43.0


From eac0b4c8105912fd17f86109b40eb45518dd49e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:53 +0000
Subject: [PATCH 26/32] fix: keep NITF DES header text left-justified

GDAL strips the trailing blanks of the fields it presents in xml:DES. Padding them
on the left moved texts to the end of their fields and shifted the user defined
subheader, so that its fixed-position fields could not be read from the copy.
---
 src/aws/osml/gdal/nitf_des_accessor.py | 32 +++++++++++++-------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/src/aws/osml/gdal/nitf_des_accessor.py b/src/aws/osml/gdal/nitf_des_accessor.py
index b586555..7d21aad 100644
--- a/src/aws/osml/gdal/nitf_des_accessor.py
+++ b/src/aws/osml/gdal/nitf_des_accessor.py
@@ -67,21 +67,21 @@ class NITFDESAccessor:
         result_builder = StringIO()
         result_builder.write(format(NITFDESAccessor.parse_field_value(des_element, "DESVER", int), "02d"))
         result_builder.write(format(NITFDESAccessor.parse_field_value(des_element, "DECLAS", str), ">1"))
-        result_builder.write(format(NITFDESAccessor.parse_field_value(des_element, "DESCLSY", str), ">2"))
-        result_builder.write(format(NITFDESAccessor.parse_field_value(des_element, "DESCODE", str), ">11"))
-        result_builder.write(format(NITFDESAccessor.parse_field_value(des_element, "DESCTLH", str), ">2"))
-        result_builder.write(format(NITFDESAccessor.parse_field_value(des_element, "DESREL", str), ">20"))
-        result_builder.write(format(NITFDESAccessor.parse_field_value(des_element, "DESDCTP", str), ">2"))
-        result_builder.write(format(NITFDESAccessor.parse_field_value(des_element, "DESDCDT", str), ">8"))
-        result_builder.write(format(NITFDESAccessor.parse_field_value(des_element, "DESDCXM", str), ">4"))
-        result_builder.write(format(NITFDESAccessor.parse_field_value(des_element, "DESDG", str), ">1"))
-        result_builder.write(format(NITFDESAccessor.parse_field_value(des_element, "DESDGDT", str), ">8"))
-        result_builder.write(format(NITFDESAccessor.parse_field_value(des_element, "DESCLTX", str), ">43"))
-        result_builder.write(format(NITFDESAccessor.parse_field_value(des_element, "DESCATP", str), ">1"))
-        result_builder.write(format(NITFDESAccessor.parse_field_value(des_element, "DESCAUT", str), ">40"))
-        result_builder.write(format(NITFDESAccessor.parse_field_value(des_element, "DESCRSN", str), ">1"))
-        result_builder.write(format(NITFDESAccessor.parse_field_value(des_element, "DESSRDT", str), ">8"))
-        result_builder.write(format(NITFDESAccessor.parse_field_value(des_element, "DESCTLN", str), ">15"))
+        result_builder.write(format(NITFDESAccessor.parse_field_value(des_element, "DESCLSY", str), "<2"))
+        result_builder.write(format(NITFDESAccessor.parse_field_value(des_element, "DESCODE", str), "<11"))
+        result_builder.write(format(NITFDESAccessor.parse_field_value(des_element, "DESCTLH", str), "<2"))
+        result_builder.write(format(NITFDESAccessor.parse_field_value(des_element, "DESREL", str), "<20"))
+        result_builder.write(format(NITFDESAccessor.parse_field_value(des_element, "DESDCTP", str), "<2"))
+        result_builder.write(format(NITFDESAccessor.parse_field_value(des_element, "DESDCDT", str), "<8"))
+        result_builder.write(format(NITFDESAccessor.parse_field_value(des_element, "DESDCXM", str), "<4"))
+        result_builder.write(format(NITFDESAccessor.parse_field_value(des_element, "DESDG", str), "<1"))
+        result_builder.write(format(NITFDESAccessor.parse_field_value(des_element, "DESDGDT", str), "<8"))
+        result_builder.write(format(NITFDESAccessor.parse_field_value(des_element, "DESCLTX", str), "<43"))
+        result_builder.write(format(NITFDESAccessor.parse_field_value(des_element, "DESCATP", str), "<1"))
+        result_builder.write(format(NITFDESAccessor.parse_field_value(des_element, "DESCAUT", str), "<40"))
+        result_builder.write(format(NITFDESAccessor.parse_field_value(des_element, "DESCRSN", str), "<1"))
+        result_builder.write(format(NITFDESAccessor.parse_field_value(des_element, "DESSRDT", str), "<8"))
+        result_builder.write(format(NITFDESAccessor.parse_field_value(des_element, "DESCTLN", str), "<15"))
 
         # TODO: If DESID = TRE_OVERFLOW DESOFLW, DESITEM
 
@@ -91,7 +91,7 @@ class NITFDESAccessor:
             result_builder.write(
                 format(
                     NITFDESAccessor.parse_field_value(des_element, "DESSHF", str),
-                    f">{subheader_length}",
+                    f"<{subheader_length}",
                 )
             )
 
-- 
2.43.0


From 55aa6ec4917074e34a95cc16fcaef8ed06f7c81a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:56 +0000
Subject: [PATCH 27/32] fix: keep 64-bit pixel values of unscaled tiles

---
 src/aws/osml/image_processing/gdal_tile_factory.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/aws/osml/image_processing/gdal_tile_factory.py b/src/aws/osml/image_processing/gdal_tile_factory.py
index 511bd84..1baeb66 100644
--- a/src/aws/osml/image_processing/gdal_tile_factory.py
+++ b/src/aws/osml/image_processing/gdal_tile_factory.py
@@ -538,11 +538,15 @@ class GDALTileFactory:
         )
 
         gdal_translate_kwargs = {
-            "scaleParams": scale_params,
             "outputType": output_type,
             "format": self.tile_format,
         }
 
+        # Pixel values that map to themselves are not scaled because the arithmetic GDAL uses to do so overflows for
+        # the full range of 64-bit floating point values and is not exact for 64-bit integers.
+        if any(params[0:2] != params[2:4] for params in scale_params):
+            gdal_translate_kwargs["scaleParams"] = scale_params
+
         creation_options = []
         if self.tile_format == GDALImageFormats.NITF:
             # Creation options specific to the NITF raster driver.
-- 
2.43.0


From 3a0aeefd1484826313dfc9e09eda7afe4a5ed4ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:47 +0000
Subject: [PATCH 28/32] fix: strip XML declarations of NITF DES that span
 several lines

---
 src/aws/osml/gdal/nitf_des_accessor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/aws/osml/gdal/nitf_des_accessor.py b/src/aws/osml/gdal/nitf_des_accessor.py
index 7d21aad..e2d5f1c 100644
--- a/src/aws/osml/gdal/nitf_des_accessor.py
+++ b/src/aws/osml/gdal/nitf_des_accessor.py
@@ -36,7 +36,7 @@ class NITFDESAccessor:
                 # of the xml:DES data structure. An embedded xml prolog (e.g. <?xml version= ... ?>) is invalid syntax
                 # that will throw off some XML parsers. The xml prolog is optional, so we can strip all of them from
                 # the XML as a workaround while we look for a better way to address this recent GDAL change.
-                clean_xml_string = re.sub(r"<\?xml.*?\?>", "", xml_des_list).strip()
+                clean_xml_string = re.sub(r"<\?xml.*?\?>", "", xml_des_list, flags=re.DOTALL).strip()
                 des_list = ElementTree.fromstring(clean_xml_string)
                 self.parsed_des_lists.append(des_list)
 
-- 
2.43.0


From bee42c9e9c4a1e4d14bf665a90417963a3cf6a7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:17 +0000
Subject: [PATCH 29/32] fix: summarize DEM tiles with the elevations of all
 posts

---
 src/aws/osml/gdal/gdal_dem_tile_factory.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/aws/osml/gdal/gdal_dem_tile_factory.py b/src/aws/osml/gdal/gdal_dem_tile_factory.py
index b4caca1..a96030f 100644
--- a/src/aws/osml/gdal/gdal_dem_tile_factory.py
+++ b/src/aws/osml/gdal/gdal_dem_tile_factory.py
@@ -73,7 +73,8 @@ class GDALDigitalElevationModelTileFactory(DigitalElevationModelTileFactory):
         lr_corner_ecf = geodetic_to_geocentric(sensor_model.image_to_world(ImageCoordinate([width, height]))).coordinate
         post_spacing = np.linalg.norm(ul_corner_ecf - lr_corner_ecf) / np.sqrt(width * width + height * height)
 
-        stats = raster_band.GetStatistics(True, True)
+        # The summary bounds all elevations in the tile so the statistics can not be approximated from a subset of posts
+        stats = raster_band.GetStatistics(False, True)
         summary = ElevationRegionSummary(
             min_elevation=stats[0],
             max_elevation=stats[1],
-- 
2.43.0


From 4ef7f9ef5f35a0062634590753a5f34a99994abf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:17 +0000
Subject: [PATCH 30/32] fix: tolerate missing DEM tiles when GDAL exceptions
 are enabled

---
 src/aws/osml/gdal/gdal_dem_tile_factory.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/aws/osml/gdal/gdal_dem_tile_factory.py b/src/aws/osml/gdal/gdal_dem_tile_factory.py
index a96030f..0662574 100644
--- a/src/aws/osml/gdal/gdal_dem_tile_factory.py
+++ b/src/aws/osml/gdal/gdal_dem_tile_factory.py
@@ -47,7 +47,11 @@ class GDALDigitalElevationModelTileFactory(DigitalElevationModelTileFactory):
         """
         tile_location = f"{self.tile_directory}/{tile_path}"
         tile_location = tile_location.replace("s3:/", "/vsis3", 1)
-        ds = gdal.Open(tile_location)
+        try:
+            ds = gdal.Open(tile_location)
+        except RuntimeError:
+            # GDAL reports a missing file this way instead of returning None if exceptions are enabled
+            ds = None
 
         # It isn't unusual for a DEM tile set to be missing tiles for regions (particularly over the ocean). If
         # the raster dataset can't be opened we'll return nothing so the client can proceed knowing that the
-- 
2.43.0


From d808a0460de7e28ccebd626fe311a30fe532d318 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:11:49 +0000
Subject: [PATCH 31/32] fix: a GDAL configuration environment can be entered
 again while it is active

---
 src/aws/osml/gdal/gdal_config.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/aws/osml/gdal/gdal_config.py b/src/aws/osml/gdal/gdal_config.py
index a0053c6..285565e 100644
--- a/src/aws/osml/gdal/gdal_config.py
+++ b/src/aws/osml/gdal/gdal_config.py
@@ -1,7 +1,7 @@
 #  Copyright 2023-2024 Amazon.com, Inc. or its affiliates.
 
 import logging
-from typing import Dict, Optional
+from typing import Dict, List, Optional
 
 from osgeo import gdal
 
@@ -59,6 +59,7 @@ class GDALConfigEnv:
         else:
             self.options = {}
         self.old_options: Dict = {}
+        self.outer_options: List[Dict] = []
 
     def with_aws_credentials(self, aws_credentials: Optional[Dict[str, str]]) -> "GDALConfigEnv":
         """
@@ -79,6 +80,9 @@ class GDALConfigEnv:
         return self
 
     def __enter__(self) -> None:
+        # The same environment may already be active; keep the values saved by the outer with statement
+        self.outer_options.append(self.old_options)
+        self.old_options = {}
         for key, val in self.options.items():
             self.old_options[key] = gdal.GetConfigOption(key)
             gdal.SetConfigOption(key, str(val))
@@ -86,3 +90,4 @@ class GDALConfigEnv:
     def __exit__(self, exc_type: str, exc_val: str, exc_traceback: str) -> None:
         for key, val in self.options.items():
             gdal.SetConfigOption(key, self.old_options[key])
+        self.old_options = self.outer_options.pop()
-- 
2.43.0


From 3466f1a40a9d1249eaaac2cd67015c1fba1b9345 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:47 +0000
Subject: [PATCH 32/32] fix: index feature collections with features that have
 no geometry

---
 src/aws/osml/features/feature_index.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/aws/osml/features/feature_index.py b/src/aws/osml/features/feature_index.py
index ba7681e..497351b 100644
--- a/src/aws/osml/features/feature_index.py
+++ b/src/aws/osml/features/feature_index.py
@@ -52,7 +52,11 @@ class STRFeature2DSpatialIndex(Feature2DSpatialIndex):
         if use_image_geometries and property_accessor is not None:
             geometries = [property_accessor.find_image_geometry(feature) for feature in self.features]
         else:
-            geometries = [shapely.geometry.shape(feature.geometry) for feature in self.features]
+            # GeoJSON features may have a null geometry, the index will not find those
+            geometries = [
+                shapely.geometry.shape(feature.geometry) if feature.geometry is not None else None
+                for feature in self.features
+            ]
 
         self.index = shapely.STRtree(geometries)
 
-- 
2.43.0

