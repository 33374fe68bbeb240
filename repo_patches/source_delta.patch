From c1f845ad75efa3abee7a1be301a5e31fcc9ceba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:56 +0000
Subject: [PATCH 01/71] fix: keep fractional and NaN nodata values when writing
 a geotiff

The nodata value was truncated to an integer, which changed values such as
2.5 and failed for NaN.
---
 .../earth_overhead/geotiff/geotiff_image.py          | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/resippy/image_objects/earth_overhead/geotiff/geotiff_image.py b/resippy/image_objects/earth_overhead/geotiff/geotiff_image.py
index 7b6244f..e31aa52 100644
--- a/resippy/image_objects/earth_overhead/geotiff/geotiff_image.py
+++ b/resippy/image_objects/earth_overhead/geotiff/geotiff_image.py
@@ -6,6 +6,7 @@ import osr
 from numpy import ndarray
 from osgeo import gdal_array
 from pyproj import Proj
+from typing import Union
 
 from resippy.image_objects.earth_overhead.abstract_earth_overhead_image import AbstractEarthOverheadImage
 from resippy.image_objects.earth_overhead.geotiff.geotiff_metadata import GeotiffMetadata
@@ -98,6 +99,13 @@ class GeotiffImage(AbstractEarthOverheadImage):
         band = self._dset.GetRasterBand(band_number + 1)
         return band.ReadAsArray()
 
+    def _get_gdal_nodata_val(self):  # type: (...) -> Union[int, float]
+        # gdal wants an integer for 64 bit integer bands, and a fractional or NaN value must be kept as it is
+        nodata_val = float(self.get_metadata().get_nodata_val())
+        if nodata_val.is_integer():
+            return int(self.get_metadata().get_nodata_val())
+        return nodata_val
+
     def get_gdal_mem_datset(self):  # type: (...) -> gdal.Dataset
         driver = gdal.GetDriverByName('MEM')
         dtype = self.get_metadata().get_gdal_datatype()
@@ -115,7 +123,7 @@ class GeotiffImage(AbstractEarthOverheadImage):
         for band in range(self.get_metadata().get_n_bands()):
             dataset.GetRasterBand(band + 1).WriteArray(self.get_image_band(band))
             if self.get_metadata().get_nodata_val() is not None:
-                dataset.GetRasterBand(band + 1).SetNoDataValue(int(self.get_metadata().get_nodata_val()))
+                dataset.GetRasterBand(band + 1).SetNoDataValue(self._get_gdal_nodata_val())
         return dataset
 
     def write_to_disk(self,
@@ -139,7 +147,7 @@ class GeotiffImage(AbstractEarthOverheadImage):
         for band in range(self.get_metadata().get_n_bands()):
             dataset.GetRasterBand(band + 1).WriteArray(self.get_image_band(band))
             if self.get_metadata().get_nodata_val() is not None:
-                dataset.GetRasterBand(band + 1).SetNoDataValue(int(self.get_metadata().get_nodata_val()))
+                dataset.GetRasterBand(band + 1).SetNoDataValue(self._get_gdal_nodata_val())
         dataset.FlushCache()
         dataset = None
 
-- 
2.43.0


From 78838d365d4be4babce718630b5cfadbdc355fa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:56 +0000
Subject: [PATCH 02/71] fix: get_image_band reports None when no image data is
 loaded

Callers (orthorectification, physical camera images) test for None and then
read the band from disk, but the call raised a TypeError first.
---
 resippy/image_objects/abstract_image.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/resippy/image_objects/abstract_image.py b/resippy/image_objects/abstract_image.py
index 878506c..abaf522 100644
--- a/resippy/image_objects/abstract_image.py
+++ b/resippy/image_objects/abstract_image.py
@@ -87,8 +87,10 @@ class AbstractImage():
         """
         Gets a particular image band of the image object's _image_data class variable.  band_num is zero-based.
         :param band_num: band number to get
-        :return: image band of dimensions (ny, nx)
+        :return: image band of dimensions (ny, nx), or None if no image data has been set or loaded
         """
+        if self._image_data is None:
+            return None
         return self._image_data[:, :, band_num]
 
     def set_image_band(self,
-- 
2.43.0


From 90daec2b44cb63cd2cfc78f346e1870702fcbdf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:58 +0000
Subject: [PATCH 03/71] fix: load image data before creating the geotiff to
 write

Writing an image that was opened from a file and not loaded onto that same
file created (emptied) the file before its pixels were read.
---
 .../image_objects/earth_overhead/geotiff/geotiff_image.py    | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/resippy/image_objects/earth_overhead/geotiff/geotiff_image.py b/resippy/image_objects/earth_overhead/geotiff/geotiff_image.py
index e31aa52..e295263 100644
--- a/resippy/image_objects/earth_overhead/geotiff/geotiff_image.py
+++ b/resippy/image_objects/earth_overhead/geotiff/geotiff_image.py
@@ -130,6 +130,9 @@ class GeotiffImage(AbstractEarthOverheadImage):
                       fname,  # type: str
                       compression="LZW"  # type: str
                       ):  # type: (...) -> None
+        # load before the file is created, it may be the file this image reads from
+        if self.get_image_data() is None:
+            self.set_image_data(self.read_all_image_data_from_disk())
         driver = gdal.GetDriverByName('GTiff')
         dtype = self.get_metadata().get_gdal_datatype()
         ops = ['COMPRESS=' + compression, "INTERLEAVE=BAND", "TILED=YES"]
@@ -142,8 +145,6 @@ class GeotiffImage(AbstractEarthOverheadImage):
             ops)
         dataset.SetGeoTransform(self.get_point_calculator().get_geot())
         dataset.SetProjection(self.get_point_calculator().get_gdal_projection_wkt())
-        if self.get_image_data() is None:
-            self.set_image_data(self.read_all_image_data_from_disk())
         for band in range(self.get_metadata().get_n_bands()):
             dataset.GetRasterBand(band + 1).WriteArray(self.get_image_band(band))
             if self.get_metadata().get_nodata_val() is not None:
-- 
2.43.0


From 5f5524d12054ea4fc38770e60ca0646ed3606f9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:01 +0000
Subject: [PATCH 04/71] fix: build the local UTM projection from the zone
 number

---
 resippy/utils/proj_utils.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/resippy/utils/proj_utils.py b/resippy/utils/proj_utils.py
index f1d1bb2..e6d5faa 100644
--- a/resippy/utils/proj_utils.py
+++ b/resippy/utils/proj_utils.py
@@ -29,8 +29,8 @@ def decimal_degrees_to_local_utm_proj(lon_decimal_degrees,      # type: float
                                       lat_decimal_degrees,      # type: float
                                       ):                        # type: (...) -> Proj
     zone_info = utm.from_latlon(lat_decimal_degrees, lon_decimal_degrees)
-    zone_string = str(zone_info[2]) + zone_info[3]
-    zone_letter = zone_string[-1]
+    zone_number = zone_info[2]
+    zone_letter = zone_info[3]
     is_south_zone = zone_letter < 'N'
-    local_proj = Proj(proj='utm', ellps='WGS84', zone=zone_string, south=is_south_zone)
+    local_proj = Proj(proj='utm', ellps='WGS84', zone=zone_number, south=is_south_zone)
     return local_proj
-- 
2.43.0


From 5f8c75e85acbdcda19b6edafc4c1342817ab7ddf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:01 +0000
Subject: [PATCH 05/71] fix: recover rotation angles without leaving the arccos
 domain

---
 resippy/utils/photogrammetry_utils.py | 16 ++++------------
 1 file changed, 4 insertions(+), 12 deletions(-)

diff --git a/resippy/utils/photogrammetry_utils.py b/resippy/utils/photogrammetry_utils.py
index 6d81595..573ca8c 100644
--- a/resippy/utils/photogrammetry_utils.py
+++ b/resippy/utils/photogrammetry_utils.py
@@ -180,18 +180,10 @@ def solve_for_omega_phi_kappa(m_matrix,  # type: ndarray
     m32 = m_matrix[2, 1]
     m21 = m_matrix[1, 0]
 
-    phi = np.arcsin(m31)
-    cos_phi = np.cos(phi)
-    kappa = np.arccos(m11 / cos_phi)
-    omega = np.arccos(m33 / cos_phi)
-    # if np.isnan(kappa):
-    #     kappa = 0
-    # if np.isnan(omega):
-    #     omega = 0
-    if m32 > 0:
-        omega = -omega
-    if m21 > 0:
-        kappa = -kappa
+    # cos(phi) is positive, use arctan2 so that rounding never leaves the domain of an inverse function
+    phi = np.arctan2(m31, np.hypot(m11, m21))
+    kappa = np.arctan2(-m21, m11)
+    omega = np.arctan2(-m32, m33)
 
     return omega, phi, kappa
 
-- 
2.43.0


From 85a0a2e67c4b872a6840460133a7d56d55a3f93f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:02 +0000
Subject: [PATCH 06/71] fix: use the third radial distortion coefficient of a
 pix4d camera

---
 .../earth_overhead_point_calculators/pix4d_point_calc.py        | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resippy/image_objects/earth_overhead/earth_overhead_point_calculators/pix4d_point_calc.py b/resippy/image_objects/earth_overhead/earth_overhead_point_calculators/pix4d_point_calc.py
index adc58ea..6931343 100644
--- a/resippy/image_objects/earth_overhead/earth_overhead_point_calculators/pix4d_point_calc.py
+++ b/resippy/image_objects/earth_overhead/earth_overhead_point_calculators/pix4d_point_calc.py
@@ -100,7 +100,7 @@ class Pix4dPointCalc(AbstractEarthOverheadPointCalc):
         point_calc.tangential_distortion_2 = all_params[image_key_basename]['tangential_distortion'][1]
         point_calc.radial_distortion_1 = all_params[image_key_basename]['radial_distortion'][0]
         point_calc.radial_distortion_2 = all_params[image_key_basename]['radial_distortion'][1]
-        point_calc.radial_distortion_3 = all_params[image_key_basename]['radial_distortion'][1]
+        point_calc.radial_distortion_3 = all_params[image_key_basename]['radial_distortion'][2]
         point_calc.distortion_model = distortion_model
 
         approximate_lon = all_params[image_key_basename]['external_params'][0]
-- 
2.43.0


From c714c9676a29aaa8607532b2d54b19bb077ff08b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:02 +0000
Subject: [PATCH 07/71] fix: RPC term 19 is latitude squared times height

---
 .../earth_overhead_point_calculators/rpc_point_calc.py          | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resippy/image_objects/earth_overhead/earth_overhead_point_calculators/rpc_point_calc.py b/resippy/image_objects/earth_overhead/earth_overhead_point_calculators/rpc_point_calc.py
index 0f27d9d..83bf413 100644
--- a/resippy/image_objects/earth_overhead/earth_overhead_point_calculators/rpc_point_calc.py
+++ b/resippy/image_objects/earth_overhead/earth_overhead_point_calculators/rpc_point_calc.py
@@ -182,7 +182,7 @@ class RPCPointCalc(AbstractEarthOverheadPointCalc):
 
         p = a1 + a2*y + a3*x + a4*z + a5*xy + a6*yz + a7*xz + a8 * y_squared + \
             a9*x_squared + a10*z_squared + a11*x*y*z + a12*y_cubed + a13*y*x_squared + a14*y*z_squared + \
-            a15*y_squared*x + a16*x_cubed + a17*x*z_squared + a18*y_squared*z + a19*x_squared*y + a20*z_cubed
+            a15*y_squared*x + a16*x_cubed + a17*x*z_squared + a18*y_squared*z + a19*x_squared*z + a20*z_cubed
         return p
 
     def _lon_lat_alt_to_pixel_x_y_native(self,
-- 
2.43.0


From 0681c35d674501202e7f72583e1d9de9e37c9150 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:02 +0000
Subject: [PATCH 08/71] fix: keep a single altitude given for every pixel of a
 geolocation grid

---
 .../earth_overhead_point_calculators/igm_point_calc.py          | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resippy/image_objects/earth_overhead/earth_overhead_point_calculators/igm_point_calc.py b/resippy/image_objects/earth_overhead/earth_overhead_point_calculators/igm_point_calc.py
index d5c7729..1ad7dd1 100644
--- a/resippy/image_objects/earth_overhead/earth_overhead_point_calculators/igm_point_calc.py
+++ b/resippy/image_objects/earth_overhead/earth_overhead_point_calculators/igm_point_calc.py
@@ -22,7 +22,7 @@ class IGMPointCalc(AbstractEarthOverheadPointCalc):
         self._npix_y, self._npix_x = lon_array.shape
         self.set_projection(projection)
         if isinstance(alt_array, numbers.Number):
-            self._alts = numpy.zeros_like(lon_array)
+            self._alts = numpy.zeros(lon_array.shape) + alt_array
         else:
             self._alts = alt_array
         self._bands_coregistered = True
-- 
2.43.0


From cee0cd63878b2f44314bc0d838eb5e8b66cc6c31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:02 +0000
Subject: [PATCH 09/71] fix: solve for longitude without dividing by a
 derivative that can vanish

---
 .../abstract_earth_overhead_point_calc.py                    | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/resippy/image_objects/earth_overhead/earth_overhead_point_calculators/abstract_earth_overhead_point_calc.py b/resippy/image_objects/earth_overhead/earth_overhead_point_calculators/abstract_earth_overhead_point_calc.py
index 0266a9b..4ef30b6 100644
--- a/resippy/image_objects/earth_overhead/earth_overhead_point_calculators/abstract_earth_overhead_point_calc.py
+++ b/resippy/image_objects/earth_overhead/earth_overhead_point_calculators/abstract_earth_overhead_point_calc.py
@@ -272,8 +272,9 @@ class AbstractEarthOverheadPointCalc:
             delta_px = pixel_xs - pixel_x_estimate
             delta_py = pixel_ys - pixel_y_estimate
 
-            delta_lat = (delta_py * pxx - pyx * delta_px) / (pyy * pxx - pxy * pyx)
-            delta_lon = (delta_px - delta_lat * pxy) / pxx
+            determinant = pyy * pxx - pxy * pyx
+            delta_lat = (delta_py * pxx - pyx * delta_px) / determinant
+            delta_lon = (delta_px * pyy - pxy * delta_py) / determinant
 
             new_lons = lons + delta_lon
             new_lats = lats + delta_lat
-- 
2.43.0


From 6870d5798dd834ce6ed5df5ddbf6052efe3371f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:41 +0000
Subject: [PATCH 10/71] fix: weight bilinear elevations toward the nearer
 samples

---
 resippy/photogrammetry/dem/geotiff_dem.py | 19 ++++++-------------
 1 file changed, 6 insertions(+), 13 deletions(-)

diff --git a/resippy/photogrammetry/dem/geotiff_dem.py b/resippy/photogrammetry/dem/geotiff_dem.py
index 27f66a2..224b584 100644
--- a/resippy/photogrammetry/dem/geotiff_dem.py
+++ b/resippy/photogrammetry/dem/geotiff_dem.py
@@ -113,20 +113,13 @@ class GeotiffDem(AbstractDem):
             elevations_y2x1 = self.dem_data[pixel_locs_y_2, pixel_locs_x_1]
             elevations_y2x2 = self.dem_data[pixel_locs_y_2, pixel_locs_x_2]
 
-            x_distances_1 = pixel_locs_x - pixel_locs_x_1
-            x_distances_2 = pixel_locs_x_2 - pixel_locs_x
-            y_distances_1 = pixel_locs_y - pixel_locs_y_1
-            y_distances_2 = pixel_locs_y_2 - pixel_locs_y
+            # beyond the first or last sample the edge sample applies
+            x_fractions = np.clip(pixel_locs_x - pixel_locs_x_1, 0, 1)
+            y_fractions = np.clip(pixel_locs_y - pixel_locs_y_1, 0, 1)
 
-            distances_y1x1 = np.sqrt(np.square(y_distances_1) + np.square(x_distances_1))
-            distances_y1x2 = np.sqrt(np.square(y_distances_1) + np.square(x_distances_2))
-            distances_y2x1 = np.sqrt(np.square(y_distances_2) + np.square(x_distances_1))
-            distances_y2x2 = np.sqrt(np.square(y_distances_2) + np.square(x_distances_2))
-
-            elevations_arr = np.array((elevations_y1x1, elevations_y1x2, elevations_y2x1, elevations_y2x2))
-            weights_arr = np.array((distances_y1x1, distances_y1x2, distances_y2x1, distances_y2x2))
-
-            elevations = np.average(elevations_arr, weights=weights_arr, axis=0,)
+            elevations_y1 = elevations_y1x1 * (1 - x_fractions) + elevations_y1x2 * x_fractions
+            elevations_y2 = elevations_y2x1 * (1 - x_fractions) + elevations_y2x2 * x_fractions
+            elevations = elevations_y1 * (1 - y_fractions) + elevations_y2 * y_fractions
 
         else:
             TypeError("interpolation must be set to either 'nearest' or 'bilinear' "
-- 
2.43.0


From 512f1d3385714d2b0406d698fe366099e907132c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:41 +0000
Subject: [PATCH 11/71] fix: keep the shape of the query points and of narrow
 elevation rasters

---
 resippy/photogrammetry/dem/geotiff_dem.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/resippy/photogrammetry/dem/geotiff_dem.py b/resippy/photogrammetry/dem/geotiff_dem.py
index 224b584..15ef7fc 100644
--- a/resippy/photogrammetry/dem/geotiff_dem.py
+++ b/resippy/photogrammetry/dem/geotiff_dem.py
@@ -70,7 +70,7 @@ class GeotiffDem(AbstractDem):
                           geotiff_image  # type: GeotiffImage
                           ):  # type: (...) -> None
         self.gtiff = geotiff_image
-        self.dem_data = np.squeeze(self.gtiff.read_all_image_data_from_disk())
+        self.dem_data = self.gtiff.read_all_image_data_from_disk()[:, :, 0]
         self.set_projection(self.gtiff.get_point_calculator().get_projection())
         self.remove_nodata_values(self.nodata_value)
 
@@ -129,7 +129,7 @@ class GeotiffDem(AbstractDem):
         if world_xyz_is_2d:
             elevations = np.reshape(elevations, (ny, nx))
         else:
-            elevations = np.squeeze(elevations)
+            elevations = np.reshape(elevations, np.shape(world_x))
         return elevations
 
     def get_highest_alt(self):  # type: (...) -> float
-- 
2.43.0


From ca592050b7a3fc852c862be457543de36b71a508 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:41 +0000
Subject: [PATCH 12/71] fix: mark missing cells of integer elevation rasters

---
 resippy/photogrammetry/dem/geotiff_dem.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/resippy/photogrammetry/dem/geotiff_dem.py b/resippy/photogrammetry/dem/geotiff_dem.py
index 15ef7fc..6776308 100644
--- a/resippy/photogrammetry/dem/geotiff_dem.py
+++ b/resippy/photogrammetry/dem/geotiff_dem.py
@@ -64,7 +64,10 @@ class GeotiffDem(AbstractDem):
         self.nodata_value = nodata_value
         if self.nodata_value is not None:
             if self.dem_data is not None:
-                self.dem_data[np.where(self.dem_data == nodata_value)] = np.nan
+                nodata_locs = np.where(self.dem_data == nodata_value)
+                if nodata_locs[0].size > 0 and not np.issubdtype(self.dem_data.dtype, np.floating):
+                    self.dem_data = self.dem_data.astype(float)
+                self.dem_data[nodata_locs] = np.nan
 
     def set_geotiff_image(self,
                           geotiff_image  # type: GeotiffImage
-- 
2.43.0


From 1e460cc3c7379d722d5fc029c9272677d6349d5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:41 +0000
Subject: [PATCH 13/71] fix: initialise projection and reference of elevation
 models

---
 resippy/photogrammetry/dem/constant_elevation_dem.py | 1 +
 resippy/photogrammetry/dem/geotiff_dem.py            | 1 +
 2 files changed, 2 insertions(+)

diff --git a/resippy/photogrammetry/dem/constant_elevation_dem.py b/resippy/photogrammetry/dem/constant_elevation_dem.py
index ce82fd2..a120947 100644
--- a/resippy/photogrammetry/dem/constant_elevation_dem.py
+++ b/resippy/photogrammetry/dem/constant_elevation_dem.py
@@ -8,6 +8,7 @@ import resippy.photogrammetry.crs_defs as crs_defs
 
 class ConstantElevationDem(AbstractDem):
     def __init__(self, elevation=0):
+        super(ConstantElevationDem, self).__init__()
         self.elevation = elevation
 
     def get_elevations(self,
diff --git a/resippy/photogrammetry/dem/geotiff_dem.py b/resippy/photogrammetry/dem/geotiff_dem.py
index 6776308..c5935bc 100644
--- a/resippy/photogrammetry/dem/geotiff_dem.py
+++ b/resippy/photogrammetry/dem/geotiff_dem.py
@@ -10,6 +10,7 @@ import gdal
 
 class GeotiffDem(AbstractDem):
     def __init__(self):
+        super(GeotiffDem, self).__init__()
         self.dem_data = None
         self.gtiff = GeotiffImage
         self.nodata_value = None
-- 
2.43.0


From c5f4004ce9795d28c6707afa24f5fd1ffc9a2e39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:41 +0000
Subject: [PATCH 14/71] fix: reject unknown elevation interpolation methods

---
 resippy/photogrammetry/dem/dem_factory.py | 2 +-
 resippy/photogrammetry/dem/geotiff_dem.py | 8 ++++----
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/resippy/photogrammetry/dem/dem_factory.py b/resippy/photogrammetry/dem/dem_factory.py
index eaf753c..49eec31 100644
--- a/resippy/photogrammetry/dem/dem_factory.py
+++ b/resippy/photogrammetry/dem/dem_factory.py
@@ -25,7 +25,7 @@ class DemFactory:
         elif interpolation_method == 'nearest':
             gtiff_dem.set_interpolation_to_nearest()
         else:
-            TypeError("interpolation method should either be 'bilinear' or 'nearest'")
+            raise TypeError("interpolation method should either be 'bilinear' or 'nearest'")
         return gtiff_dem
 
     @staticmethod
diff --git a/resippy/photogrammetry/dem/geotiff_dem.py b/resippy/photogrammetry/dem/geotiff_dem.py
index c5935bc..d1959b4 100644
--- a/resippy/photogrammetry/dem/geotiff_dem.py
+++ b/resippy/photogrammetry/dem/geotiff_dem.py
@@ -100,11 +100,11 @@ class GeotiffDem(AbstractDem):
             pixel_locs_y = np.array(pixel_locs_y)
 
         # TODO implement other interpoloation methods, right now we just grab the closest pixels
-        if self.get_interpolation_method() is 'nearest':
+        if self.get_interpolation_method() == 'nearest':
             pixel_locs_x = np.clip(pixel_locs_x.astype(int), a_min=0, a_max=self.gtiff.get_metadata().get_npix_x()-1)
             pixel_locs_y = np.clip(pixel_locs_y.astype(int), a_min=0, a_max=self.gtiff.get_metadata().get_npix_y()-1)
             elevations = self.dem_data[pixel_locs_y, pixel_locs_x]
-        elif self.get_interpolation_method() is 'bilinear':
+        elif self.get_interpolation_method() == 'bilinear':
             # Do a bilinear interpolation between closest pixels by taking a weighted average
             pixel_locs_x_1 = np.clip(pixel_locs_x.astype(int), a_min=0, a_max=self.gtiff.get_metadata().get_npix_x() - 1)
             pixel_locs_y_1 = np.clip(pixel_locs_y.astype(int), a_min=0, a_max=self.gtiff.get_metadata().get_npix_y() - 1)
@@ -126,8 +126,8 @@ class GeotiffDem(AbstractDem):
             elevations = elevations_y1 * (1 - y_fractions) + elevations_y2 * y_fractions
 
         else:
-            TypeError("interpolation must be set to either 'nearest' or 'bilinear' "
-                      "when getting elevations from a GeoTiff DEM")
+            raise TypeError("interpolation must be set to either 'nearest' or 'bilinear' "
+                            "when getting elevations from a GeoTiff DEM")
 
         # unflatten world_xyz arrays if the original inputs were 2d
         if world_xyz_is_2d:
-- 
2.43.0


From 4d89250cb8c3c66dfce88f475fb633f3c339ce20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:01 +0000
Subject: [PATCH 15/71] fix: cast rays with a numpy that has no np.int

---
 .../abstract_earth_overhead_point_calc.py                       | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resippy/image_objects/earth_overhead/earth_overhead_point_calculators/abstract_earth_overhead_point_calc.py b/resippy/image_objects/earth_overhead/earth_overhead_point_calculators/abstract_earth_overhead_point_calc.py
index 4ef30b6..e2387c2 100644
--- a/resippy/image_objects/earth_overhead/earth_overhead_point_calculators/abstract_earth_overhead_point_calc.py
+++ b/resippy/image_objects/earth_overhead/earth_overhead_point_calculators/abstract_earth_overhead_point_calc.py
@@ -363,7 +363,7 @@ class AbstractEarthOverheadPointCalc:
         all_elevations = dem.get_elevations(np.array(lons_matrix), np.array(lats_matrix), world_proj=self.get_projection())
 
         ray = np.linspace(max_alt, min_alt, n_steps_per_ray)
-        first_ray_intersect_indices = np.zeros(n_pixels_to_project, dtype=np.int)
+        first_ray_intersect_indices = np.zeros(n_pixels_to_project, dtype=int)
         ray_step_indices = list(range(n_steps_per_ray))
         ray_step_indices.reverse()
         for i in ray_step_indices:
-- 
2.43.0


From 00a80ccfc1ce20ec60472247310c22fe474fafe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:01 +0000
Subject: [PATCH 16/71] fix: cast rays onto flat terrain and straight down

---
 .../abstract_earth_overhead_point_calc.py                 | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/resippy/image_objects/earth_overhead/earth_overhead_point_calculators/abstract_earth_overhead_point_calc.py b/resippy/image_objects/earth_overhead/earth_overhead_point_calculators/abstract_earth_overhead_point_calc.py
index e2387c2..4d24bde 100644
--- a/resippy/image_objects/earth_overhead/earth_overhead_point_calculators/abstract_earth_overhead_point_calc.py
+++ b/resippy/image_objects/earth_overhead/earth_overhead_point_calculators/abstract_earth_overhead_point_calc.py
@@ -338,8 +338,10 @@ class AbstractEarthOverheadPointCalc:
         alt_range = max_alt - min_alt
 
         # put the max and min alts at 1 percent above and below the maximum returned by the DEM
-        max_alt = max_alt + alt_range * 0.01
-        min_alt = min_alt - alt_range * 0.01
+        # flat terrain still needs a ray of some length that starts above and ends below it
+        alt_margin = alt_range * 0.01 if alt_range > 0 else 1.0
+        max_alt = max_alt + alt_margin
+        min_alt = min_alt - alt_margin
 
         lons_max_alt, lats_max_alt = self.pixel_x_y_alt_to_lon_lat(pixels_x, pixels_y, max_alt, band=band)
         lons_min_alt, lats_min_alt = self.pixel_x_y_alt_to_lon_lat(pixels_x, pixels_y, min_alt, band=band)
@@ -350,7 +352,7 @@ class AbstractEarthOverheadPointCalc:
 
         ray_horizontal_lens = np.sqrt(
             np.square(lons_max_alt - lons_min_alt) + np.square(lats_max_alt - lats_min_alt))
-        n_steps_per_ray = int(np.ceil(np.max(ray_horizontal_lens) / dem_sample_distance) + 1)
+        n_steps_per_ray = max(int(np.ceil(np.max(ray_horizontal_lens) / dem_sample_distance) + 1), 2)
 
         lons_matrix = np.zeros((n_pixels_to_project, n_steps_per_ray)) + np.linspace(0, 1, n_steps_per_ray)
         lats_matrix = np.zeros((n_pixels_to_project, n_steps_per_ray)) + np.linspace(0, 1, n_steps_per_ray)
-- 
2.43.0


From cd27229428a98d8033ffddf275673bfe473cf55b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:01 +0000
Subject: [PATCH 17/71] fix: read pixel values with a numpy that has no np.int

---
 resippy/photogrammetry/ortho_tools.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/resippy/photogrammetry/ortho_tools.py b/resippy/photogrammetry/ortho_tools.py
index 6c5443b..aec6287 100644
--- a/resippy/photogrammetry/ortho_tools.py
+++ b/resippy/photogrammetry/ortho_tools.py
@@ -34,12 +34,12 @@ def get_pixel_values(image_object,  # type: AbstractEarthOverheadImage
                      ):  # type: (...) -> ndarray
 
     nodata = image_object.get_metadata().get_nodata_val()
-    wh = np.round(window/2.0).astype(np.int)
+    wh = np.round(window/2.0).astype(int)
     pix_vals = []
     for band in range(image_object.get_metadata().get_n_bands()):
         img = image_object.read_band_from_disk(band)
         x, y = image_object.get_point_calculator().lon_lat_alt_to_pixel_x_y(lons, lats, alts, band=band)
-        locs = zip(np.round(x).astype(np.int), np.round(y).astype(np.int))
+        locs = zip(np.round(x).astype(int), np.round(y).astype(int))
         vals = []
         for item in locs:
             try:
-- 
2.43.0


From 69d9209667cfa28a4aaf71bf2485135d023a52c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:01 +0000
Subject: [PATCH 18/71] fix: span the requested ground rectangle with the
 geotransform

---
 resippy/utils/photogrammetry_utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/resippy/utils/photogrammetry_utils.py b/resippy/utils/photogrammetry_utils.py
index 573ca8c..987051a 100644
--- a/resippy/utils/photogrammetry_utils.py
+++ b/resippy/utils/photogrammetry_utils.py
@@ -40,8 +40,8 @@ def world_poly_to_geo_t(world_polygon,      # type: Polygon
                         ):                  # type: (...) -> list
     envelope = world_polygon.envelope
     minx, miny, maxx, maxy = envelope.bounds
-    gsd_x = (maxx - minx)/(npix_x + 1)
-    gsd_y = (maxy - miny)/(npix_y + 1)
+    gsd_x = (maxx - minx)/npix_x
+    gsd_y = (maxy - miny)/npix_y
     geot = [minx, gsd_x, 0, maxy, 0, -1*gsd_y]
     return geot
 
-- 
2.43.0


From 04c22ac7ca6f90eb6e541d4e44e1fec9c399eb70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:01 +0000
Subject: [PATCH 19/71] fix: mark ground cells outside a band as nodata when
 bands are not coregistered

---
 resippy/photogrammetry/ortho_tools.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/resippy/photogrammetry/ortho_tools.py b/resippy/photogrammetry/ortho_tools.py
index aec6287..c8c7979 100644
--- a/resippy/photogrammetry/ortho_tools.py
+++ b/resippy/photogrammetry/ortho_tools.py
@@ -212,7 +212,8 @@ def create_ortho_gtiff_image_world_to_sensor(overhead_image,  # type: AbstractEa
             regridded = map_coordinates(image_data,
                                         [image_utils.flatten_image_band(pixels_y),
                                          image_utils.flatten_image_band(pixels_x)],
-                                        order=spline_order)
+                                        order=spline_order,
+                                        cval=nodata_val)
 
             regridded = image_utils.unflatten_image_band(regridded, ortho_nx_pix, ortho_ny_pix)
             regridded = regridded.astype(im_tp)
-- 
2.43.0


From d40ad6306cfd27bc39603a0c60a47ce4c3efc54b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:01 +0000
Subject: [PATCH 20/71] fix: orthorectify loaded image data when bands are not
 coregistered

---
 resippy/photogrammetry/ortho_tools.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/resippy/photogrammetry/ortho_tools.py b/resippy/photogrammetry/ortho_tools.py
index c8c7979..edde5d2 100644
--- a/resippy/photogrammetry/ortho_tools.py
+++ b/resippy/photogrammetry/ortho_tools.py
@@ -206,7 +206,9 @@ def create_ortho_gtiff_image_world_to_sensor(overhead_image,  # type: AbstractEa
         for band in bands:
             pixels_x, pixels_y = overhead_image.get_point_calculator(). \
                 lon_lat_alt_to_pixel_x_y(image_ground_grid_x, image_ground_grid_y, alts, band=band, world_proj=world_proj)
-            image_data = overhead_image.read_band_from_disk(band)
+            image_data = overhead_image.get_image_band(band)
+            if image_data is None:
+                image_data = overhead_image.read_band_from_disk(band)
             im_tp = image_data.dtype
 
             regridded = map_coordinates(image_data,
-- 
2.43.0


From fd5a053d2ba3b2febe0d31bc8f4c1b004c7fe80b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:01 +0000
Subject: [PATCH 21/71] fix: query the terrain in the projection of the image

---
 resippy/photogrammetry/ortho_tools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resippy/photogrammetry/ortho_tools.py b/resippy/photogrammetry/ortho_tools.py
index edde5d2..bbdac61 100644
--- a/resippy/photogrammetry/ortho_tools.py
+++ b/resippy/photogrammetry/ortho_tools.py
@@ -80,7 +80,7 @@ def get_pixel_lon_lats(overhead_image,  # type: AbstractEarthOverheadImage
                                                                      pixel_error_threshold=pixel_error_threshold,
                                                                      max_iter=max_iter)
     # get differences from the highest alt using the dem
-    alt_diff = alts - dem.get_elevations(lons_highest, lats_highest)
+    alt_diff = alts - dem.get_elevations(lons_highest, lats_highest, world_proj=point_calc.get_projection())
     new_alts = alts - alt_diff
     lons_low, lats_low = point_calc.pixel_x_y_alt_to_lon_lat(pixels_x, pixels_y, new_alts,
                                                              band=band,
-- 
2.43.0


From b7e20315a2b88aca17ffe6f435b1e7b8e8c09f4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:01 +0000
Subject: [PATCH 22/71] fix: estimate the default ground sample distance from
 one band

---
 resippy/photogrammetry/ortho_tools.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/resippy/photogrammetry/ortho_tools.py b/resippy/photogrammetry/ortho_tools.py
index bbdac61..076aab2 100644
--- a/resippy/photogrammetry/ortho_tools.py
+++ b/resippy/photogrammetry/ortho_tools.py
@@ -127,9 +127,9 @@ def create_full_ortho_gtiff_image(overhead_image,  # type: AbstractEarthOverhead
         ny = overhead_image.metadata.get_npix_y()
         native_lons, native_lats = get_pixel_lon_lats(overhead_image,
                                                       dem,
-                                                      bands,
-                                                      pixels_x=[0, nx-1, 0],
-                                                      pixels_y=[0, 0, ny-1])
+                                                      0 if bands is None else np.ravel(bands)[0],
+                                                      pixels_x=np.array([0, nx-1, 0]),
+                                                      pixels_y=np.array([0, 0, ny-1]))
         local_lons, local_lats = transform(overhead_image.pointcalc.get_projection(), local_proj, native_lons, native_lats)
         distance_along_x = math.sqrt((local_lons[1] - local_lons[0]) ** 2 + (local_lats[1] - local_lats[0]) ** 2)
         distance_along_y = math.sqrt((local_lons[2] - local_lons[0]) ** 2 + (local_lats[2] - local_lats[0]) ** 2)
-- 
2.43.0


From 693527884cac486e4780353c03a9a2679eeb3604 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:01 +0000
Subject: [PATCH 23/71] fix: simplify extents relative to their size

---
 resippy/photogrammetry/ortho_tools.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/resippy/photogrammetry/ortho_tools.py b/resippy/photogrammetry/ortho_tools.py
index 076aab2..0171e58 100644
--- a/resippy/photogrammetry/ortho_tools.py
+++ b/resippy/photogrammetry/ortho_tools.py
@@ -374,9 +374,9 @@ def get_extent(overhead_image,  # type: AbstractEarthOverheadImage
         all_band_lats = np.append(all_band_lats, lats)
 
     extents = [(MultiPoint(list(zip(all_band_lons, all_band_lats))))]
-    # TODO, check into whether we can get rid of this tolerance, also, this isn't a very good approach, since it assumes
-    # TODO a particular CRS (probably 4326)
-    return unary_union(extents).convex_hull.simplify(0.001)
+    # the tolerance is relative to the size of the extent, so that it does not depend on the units of the CRS
+    convex_hull = unary_union(extents).convex_hull
+    return convex_hull.simplify(1e-5 * math.sqrt(convex_hull.area))
 
 
 def are_pixels_obstructed_by_dem(earth_overhead_image,      # type: AbstractEarthOverheadImage
-- 
2.43.0


From 91cc699bcddad43228b7a81d11ffec7f5dcbe0fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:01 +0000
Subject: [PATCH 24/71] fix: look for obstructing terrain along the line of
 sight

---
 resippy/photogrammetry/ortho_tools.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/resippy/photogrammetry/ortho_tools.py b/resippy/photogrammetry/ortho_tools.py
index 0171e58..7f4a37a 100644
--- a/resippy/photogrammetry/ortho_tools.py
+++ b/resippy/photogrammetry/ortho_tools.py
@@ -392,8 +392,7 @@ def are_pixels_obstructed_by_dem(earth_overhead_image,      # type: AbstractEart
     DEFAULT_DEM_RESOLUTION = 5
     if dem_resolution is None:
         dem_resolution = DEFAULT_DEM_RESOLUTION
-    highest_alts = np.zeros_like(pixels_x)
-    highest_alts[:] = dem.get_highest_alt() + 0.001
+    highest_alts = np.zeros(np.shape(pixels_x)) + dem.get_highest_alt() + 0.001
 
     if alts is None:
         alts = dem.get_elevations(lons, lats)
@@ -401,9 +400,9 @@ def are_pixels_obstructed_by_dem(earth_overhead_image,      # type: AbstractEart
     obstructed_mask = np.zeros_like(lons)
 
     lons_highest, lats_highest = earth_overhead_image.get_point_calculator().pixel_x_y_alt_to_lon_lat(pixels_x, pixels_y, highest_alts, band=band)
-    lon_diffs = lons - lons_highest
-    lat_diffs = lats - lats_highest
-    horizontal_distances = np.sqrt(np.square(lon_diffs + lat_diffs))
+    lon_diffs = lons_highest - lons
+    lat_diffs = lats_highest - lats
+    horizontal_distances = np.sqrt(np.square(lon_diffs) + np.square(lat_diffs))
     vertical_distances = highest_alts - alts
     max_horizontal_distance = horizontal_distances.max()
     n_dem_steps = max_horizontal_distance / dem_resolution
-- 
2.43.0


From dee22ef8df493a37ce3c10074d8fc2232cadfe6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:26 +0000
Subject: [PATCH 25/71] fix: create ground grids of a single row or column

---
 resippy/utils/photogrammetry_utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/resippy/utils/photogrammetry_utils.py b/resippy/utils/photogrammetry_utils.py
index 987051a..bb85c2b 100644
--- a/resippy/utils/photogrammetry_utils.py
+++ b/resippy/utils/photogrammetry_utils.py
@@ -59,8 +59,8 @@ def create_ground_grid(min_x,   # type: float
     ground_y_arr = ground_y_arr/npix_y*(max_y - min_y)
     ground_x_arr = ground_x_arr + min_x
     ground_y_arr = ground_y_arr + min_y
-    x_gsd = np.abs(ground_x_arr[0, 1] - ground_x_arr[0, 0])
-    y_gsd = np.abs(ground_y_arr[0, 0] - ground_y_arr[1, 0])
+    x_gsd = np.abs(max_x - min_x)/npix_x
+    y_gsd = np.abs(max_y - min_y)/npix_y
     return ground_x_arr + x_gsd/2.0, ground_y_arr - y_gsd/2.0
 
 
-- 
2.43.0


From 08cd1d5cd0c9dd1268a3cc38d007fa080e29b739 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:26 +0000
Subject: [PATCH 26/71] fix: read the simulated platform's angles in their own
 units

---
 resippy/utils/physical_camera_simulator.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/resippy/utils/physical_camera_simulator.py b/resippy/utils/physical_camera_simulator.py
index 4d2cc6d..127dd37 100644
--- a/resippy/utils/physical_camera_simulator.py
+++ b/resippy/utils/physical_camera_simulator.py
@@ -90,9 +90,9 @@ class PhysicalCameraSimulator:
                                                                              order=self._boresight_rpy_order)
 
         fixtured_camera.set_fixture_orientation_by_roll_pitch_yaw(roll, pitch, yaw,
-                                                                  roll_units=self._boresight_units,
-                                                                  pitch_units=self._boresight_units,
-                                                                  yaw_units=self._boresight_units)
+                                                                  roll_units=self._external_orientation_rpy_units,
+                                                                  pitch_units=self._external_orientation_rpy_units,
+                                                                  yaw_units=self._external_orientation_rpy_units)
 
         camera_1_m_matrix = fixtured_camera.get_camera_absolute_M_matrix()
         omega, phi, kappa = photogrammetry_utils.solve_for_omega_phi_kappa(camera_1_m_matrix)
-- 
2.43.0


From d22dc6fb33298dc314c4fcf7654653aaf6326cfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:18 +0000
Subject: [PATCH 27/71] fix: convert between utc and gps time independently of
 the local time zone

---
 resippy/utils/time_utils.py | 44 ++++++++++++++++++-------------------
 1 file changed, 22 insertions(+), 22 deletions(-)

diff --git a/resippy/utils/time_utils.py b/resippy/utils/time_utils.py
index 167a7cc..f8786e4 100644
--- a/resippy/utils/time_utils.py
+++ b/resippy/utils/time_utils.py
@@ -1,33 +1,33 @@
-from datetime import datetime, timedelta
+from datetime import datetime, timedelta, timezone
 from bisect import bisect_right
 import math
 
 # table of UTC leap second insertions since 1980 (http://hpiers.obspm.fr/eop-pc/index.php?index=TAI-UTC_tab&lang=en)
 _LEAPSECONDS = [
-    (datetime(1980, 1, 1).timestamp(), timedelta(seconds=19)),
-    (datetime(1981, 7, 1).timestamp(), timedelta(seconds=20)),
-    (datetime(1982, 7, 1).timestamp(), timedelta(seconds=21)),
-    (datetime(1983, 7, 1).timestamp(), timedelta(seconds=22)),
-    (datetime(1985, 7, 1).timestamp(), timedelta(seconds=23)),
-    (datetime(1988, 1, 1).timestamp(), timedelta(seconds=24)),
-    (datetime(1990, 1, 1).timestamp(), timedelta(seconds=25)),
-    (datetime(1991, 1, 1).timestamp(), timedelta(seconds=26)),
-    (datetime(1992, 7, 1).timestamp(), timedelta(seconds=27)),
-    (datetime(1993, 7, 1).timestamp(), timedelta(seconds=28)),
-    (datetime(1994, 7, 1).timestamp(), timedelta(seconds=29)),
-    (datetime(1996, 1, 1).timestamp(), timedelta(seconds=30)),
-    (datetime(1997, 7, 1).timestamp(), timedelta(seconds=31)),
-    (datetime(1999, 1, 1).timestamp(), timedelta(seconds=32)),
-    (datetime(2006, 1, 1).timestamp(), timedelta(seconds=33)),
-    (datetime(2009, 1, 1).timestamp(), timedelta(seconds=34)),
-    (datetime(2012, 7, 1).timestamp(), timedelta(seconds=35)),
-    (datetime(2015, 7, 1).timestamp(), timedelta(seconds=36)),
-    (datetime(2017, 1, 1).timestamp(), timedelta(seconds=37))
+    (datetime(1980, 1, 1, tzinfo=timezone.utc).timestamp(), timedelta(seconds=19)),
+    (datetime(1981, 7, 1, tzinfo=timezone.utc).timestamp(), timedelta(seconds=20)),
+    (datetime(1982, 7, 1, tzinfo=timezone.utc).timestamp(), timedelta(seconds=21)),
+    (datetime(1983, 7, 1, tzinfo=timezone.utc).timestamp(), timedelta(seconds=22)),
+    (datetime(1985, 7, 1, tzinfo=timezone.utc).timestamp(), timedelta(seconds=23)),
+    (datetime(1988, 1, 1, tzinfo=timezone.utc).timestamp(), timedelta(seconds=24)),
+    (datetime(1990, 1, 1, tzinfo=timezone.utc).timestamp(), timedelta(seconds=25)),
+    (datetime(1991, 1, 1, tzinfo=timezone.utc).timestamp(), timedelta(seconds=26)),
+    (datetime(1992, 7, 1, tzinfo=timezone.utc).timestamp(), timedelta(seconds=27)),
+    (datetime(1993, 7, 1, tzinfo=timezone.utc).timestamp(), timedelta(seconds=28)),
+    (datetime(1994, 7, 1, tzinfo=timezone.utc).timestamp(), timedelta(seconds=29)),
+    (datetime(1996, 1, 1, tzinfo=timezone.utc).timestamp(), timedelta(seconds=30)),
+    (datetime(1997, 7, 1, tzinfo=timezone.utc).timestamp(), timedelta(seconds=31)),
+    (datetime(1999, 1, 1, tzinfo=timezone.utc).timestamp(), timedelta(seconds=32)),
+    (datetime(2006, 1, 1, tzinfo=timezone.utc).timestamp(), timedelta(seconds=33)),
+    (datetime(2009, 1, 1, tzinfo=timezone.utc).timestamp(), timedelta(seconds=34)),
+    (datetime(2012, 7, 1, tzinfo=timezone.utc).timestamp(), timedelta(seconds=35)),
+    (datetime(2015, 7, 1, tzinfo=timezone.utc).timestamp(), timedelta(seconds=36)),
+    (datetime(2017, 1, 1, tzinfo=timezone.utc).timestamp(), timedelta(seconds=37))
 ]
 
 # reference epoch for GPS and UTC time
-_GPS_EPOCH = datetime(1980, 1, 6)
-_UNIX_EPOCH = datetime(1970, 1, 1)
+_GPS_EPOCH = datetime(1980, 1, 6, tzinfo=timezone.utc)
+_UNIX_EPOCH = datetime(1970, 1, 1, tzinfo=timezone.utc)
 
 # other constants
 _SECONDS_IN_MINUTE = 60
-- 
2.43.0


From fa55631abf67cb0415e27dfaf0291ac201dcc068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:18 +0000
Subject: [PATCH 28/71] fix: convert gps times shortly after a leap second

---
 resippy/utils/time_utils.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/resippy/utils/time_utils.py b/resippy/utils/time_utils.py
index f8786e4..c561b76 100644
--- a/resippy/utils/time_utils.py
+++ b/resippy/utils/time_utils.py
@@ -60,7 +60,9 @@ def utc_timestamp_to_gps_timestamp(utc_timestamp    # type: float
 def gps_timestamp_to_utc_timestamp(gps_timestamp    # type: float
                                    ):               # type: (...) -> float
     utc_timestamp_with_leap = gps_timestamp + (_GPS_EPOCH.timestamp() - _UNIX_EPOCH.timestamp())
-    return utc_timestamp_with_leap - _get_gps_leapsecond_offset(utc_timestamp_with_leap).total_seconds()
+    utc_timestamp = utc_timestamp_with_leap - _get_gps_leapsecond_offset(utc_timestamp_with_leap).total_seconds()
+    # the offset is tabulated by utc, so look it up again just after a leap second
+    return utc_timestamp_with_leap - _get_gps_leapsecond_offset(utc_timestamp).total_seconds()
 
 
 def utc_timestamp_to_gps_week_and_seconds(utc_timestamp     # type: float
-- 
2.43.0


From 8f5664d15768227b8ad86fadf53cb56e482adc13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:18 +0000
Subject: [PATCH 29/71] fix: read the last parameter of a pix4d internal
 parameters file

---
 .../earth_overhead_point_calculators/pix4d_point_calc.py        | 2 +-
 resippy/utils/pix4d_utils.py                                    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/resippy/image_objects/earth_overhead/earth_overhead_point_calculators/pix4d_point_calc.py b/resippy/image_objects/earth_overhead/earth_overhead_point_calculators/pix4d_point_calc.py
index 6931343..75bec1c 100644
--- a/resippy/image_objects/earth_overhead/earth_overhead_point_calculators/pix4d_point_calc.py
+++ b/resippy/image_objects/earth_overhead/earth_overhead_point_calculators/pix4d_point_calc.py
@@ -201,7 +201,7 @@ class Pix4dPointCalc(AbstractEarthOverheadPointCalc):
                 new_camera_param_start_locations.append(i)
 
         new_camera_param_end_locations = new_camera_param_start_locations[1:]
-        new_camera_param_end_locations.append(i)
+        new_camera_param_end_locations.append(len(lines))
 
         camera_params_list = []
 
diff --git a/resippy/utils/pix4d_utils.py b/resippy/utils/pix4d_utils.py
index 90acab2..ea57875 100644
--- a/resippy/utils/pix4d_utils.py
+++ b/resippy/utils/pix4d_utils.py
@@ -235,7 +235,7 @@ def read_pix4d_calibrated_internal_camera_parameters(internal_params_cam_file,
             new_camera_param_start_locations.append(i)
 
     new_camera_param_end_locations = new_camera_param_start_locations[1:]
-    new_camera_param_end_locations.append(i)
+    new_camera_param_end_locations.append(len(lines))
 
     camera_params_list = []
 
-- 
2.43.0


From 11ecda6cef8cc2d5fb53a1b143a9e53a67d02b22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:18 +0000
Subject: [PATCH 30/71] fix: keep the computed rotation matrix of every pix4d
 image

---
 resippy/utils/pix4d_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resippy/utils/pix4d_utils.py b/resippy/utils/pix4d_utils.py
index ea57875..3be09d7 100644
--- a/resippy/utils/pix4d_utils.py
+++ b/resippy/utils/pix4d_utils.py
@@ -199,8 +199,8 @@ def make_master_dict(base_path,                     # type: str
             raise ValueError("camera index string has more than one character!")
         cam_index = int(cam_index_str) - 1
         entry_dict["internal_params"] = internal_list[cam_index]
+        entry_dict["r_matrix_computed"] = create_r_matrix(external_dict[key])
         master_dict[key] = entry_dict
-        master_dict["r_matrix_computed"] = create_r_matrix(external_dict[key])
     return master_dict
 
 
-- 
2.43.0


From 31fccf20ec447c7d522e68b46571f38e0f111ce1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:18 +0000
Subject: [PATCH 31/71] fix: read pix4d parameter files that end with a blank
 line

---
 .../earth_overhead_point_calculators/pix4d_point_calc.py      | 2 +-
 resippy/utils/pix4d_utils.py                                  | 4 +++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/resippy/image_objects/earth_overhead/earth_overhead_point_calculators/pix4d_point_calc.py b/resippy/image_objects/earth_overhead/earth_overhead_point_calculators/pix4d_point_calc.py
index 75bec1c..7972fc2 100644
--- a/resippy/image_objects/earth_overhead/earth_overhead_point_calculators/pix4d_point_calc.py
+++ b/resippy/image_objects/earth_overhead/earth_overhead_point_calculators/pix4d_point_calc.py
@@ -181,7 +181,7 @@ class Pix4dPointCalc(AbstractEarthOverheadPointCalc):
         with open(calibrated_external_params_file, 'r') as f:
             lines = f.readlines()
         cleaned_up_lines = [string_utils.remove_newlines(x) for x in lines][1:]
-        for file_params in cleaned_up_lines:
+        for file_params in filter(None, cleaned_up_lines):
             fname, x, y, z, omega, phi, kappa = file_params.split(" ")
             external_params[fname] = [float(x), float(y), float(z), float(omega), float(phi), float(kappa)]
         return external_params
diff --git a/resippy/utils/pix4d_utils.py b/resippy/utils/pix4d_utils.py
index 3be09d7..1118021 100644
--- a/resippy/utils/pix4d_utils.py
+++ b/resippy/utils/pix4d_utils.py
@@ -44,6 +44,8 @@ def read_calibrated_camera_parameters(calibrated_params_file    # type: str
         lines = f.readlines()
     cleaned_up_lines = [string_utils.remove_newlines(x) for x in lines]
     params = cleaned_up_lines[8:]
+    while params and params[-1] == '':
+        params.pop()
     per_file_params = [params[x:x + 10] for x in range(0, len(params), 10)]
     for file_params in per_file_params:
         fname, image_w, image_h = file_params[0].split(" ")
@@ -82,7 +84,7 @@ def read_calibrated_external_camera_parameters(calibrated_external_params_file
     with open(calibrated_external_params_file, 'r') as f:
         lines = f.readlines()
     cleaned_up_lines = [string_utils.remove_newlines(x) for x in lines][1:]
-    for file_params in cleaned_up_lines:
+    for file_params in filter(None, cleaned_up_lines):
         fname, x, y, z, omega, phi, kappa = file_params.split(" ")
         external_params[fname] = [float(x), float(y), float(z), float(omega), float(phi), float(kappa)]
     return external_params
-- 
2.43.0


From cad80f7a8e394d88e91214af5a3c46b11937bb6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:18 +0000
Subject: [PATCH 32/71] fix: apply colour palettes of more than 128 bins

---
 resippy/utils/image_utils/image_utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/resippy/utils/image_utils/image_utils.py b/resippy/utils/image_utils/image_utils.py
index 6accb45..09eef01 100644
--- a/resippy/utils/image_utils/image_utils.py
+++ b/resippy/utils/image_utils/image_utils.py
@@ -205,8 +205,8 @@ def apply_colormap_to_grayscale_image(grayscale_image,  # type: ndarray
         max_clip = min_clip + (max_clip - min_clip) * (n_bins - 1) / n_bins
 
     palette_indices = np.linspace(min_clip, max_clip, n_bins)
-    image_low_index_map = np.zeros(grayscale_image.shape, dtype=np.int8)
-    image_high_index_map = np.zeros(grayscale_image.shape, dtype=np.int8)
+    image_low_index_map = np.zeros(grayscale_image.shape, dtype=int)
+    image_high_index_map = np.zeros(grayscale_image.shape, dtype=int)
     image_low_palette_index = np.zeros(grayscale_image.shape)
     image_high_palette_index = np.zeros(grayscale_image.shape)
 
-- 
2.43.0


From dcb370e1b484975987421911441ddebf2f907a45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:18 +0000
Subject: [PATCH 33/71] fix: normalise integer images without overflowing their
 range

---
 resippy/utils/image_utils/image_utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/resippy/utils/image_utils/image_utils.py b/resippy/utils/image_utils/image_utils.py
index 09eef01..284b5be 100644
--- a/resippy/utils/image_utils/image_utils.py
+++ b/resippy/utils/image_utils/image_utils.py
@@ -123,8 +123,8 @@ def gdal_grid_image_band(image_to_warp,  # type: ndarray
 
 
 def normalize_grayscale_image(input_image, new_min, new_max, output_dtype=None):
-    image_min = np.min(input_image)
-    image_max = np.max(input_image)
+    image_min = float(np.min(input_image))
+    image_max = float(np.max(input_image))
     image_zero_to_one = (input_image - image_min)/(image_max-image_min)
     normalized_image = image_zero_to_one * (new_max - new_min) + new_min
     if output_dtype is None:
-- 
2.43.0


From a78183b5e3943b145ec3f597cfaeb16a952f9bdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:18 +0000
Subject: [PATCH 34/71] fix: chip all bands with a numpy that has no np.int

---
 resippy/utils/image_utils/image_chipper.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resippy/utils/image_utils/image_chipper.py b/resippy/utils/image_utils/image_chipper.py
index afe9b84..90e6407 100644
--- a/resippy/utils/image_utils/image_chipper.py
+++ b/resippy/utils/image_utils/image_chipper.py
@@ -86,7 +86,7 @@ def chip_images_by_pixel_upper_lefts(input_image,                   # type: ndar
     n_chips = len(pixel_y_ul_list)
 
     if bands is None:
-        bands = np.arange(0, nbands).astype(np.int)
+        bands = np.arange(0, nbands).astype(int)
     else:
         nbands = len(bands)
 
-- 
2.43.0


From 08423ab18b3de8d787d029f394160cf9d29772f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:18 +0000
Subject: [PATCH 35/71] fix: write grayscale chips to disk

---
 resippy/utils/image_utils/image_chipper.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/resippy/utils/image_utils/image_chipper.py b/resippy/utils/image_utils/image_chipper.py
index 90e6407..362e0f4 100644
--- a/resippy/utils/image_utils/image_chipper.py
+++ b/resippy/utils/image_utils/image_chipper.py
@@ -146,10 +146,10 @@ def write_chips_to_disk(image_chips,            # type: ndarray
         base_chip_fname = os.path.basename(output_dir)
     n_chips = get_nchips(image_chips)
     for i in range(n_chips):
-        chip = image_chips[i, :, :, :]
+        chip = image_chips[i]
         if output_chip_ny is not None:
             chip = image_utils.resize_image(chip, output_chip_ny, output_chip_nx)
-        if remove_alpha is True and chip.shape[-1] == 4:
+        if remove_alpha is True and chip.ndim == 3 and chip.shape[-1] == 4:
             chip = chip[:, :, 0:3]
         chip_fname = base_chip_fname + "_" + str(i).zfill(8)
         if fnames_list is not None:
-- 
2.43.0


From 0ba0df286f609ac07fe0362c3d22490ccd5f9ed8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:18 +0000
Subject: [PATCH 36/71] fix: write empty text lists and final empty entries

---
 resippy/utils/file_utils.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/resippy/utils/file_utils.py b/resippy/utils/file_utils.py
index 591d780..16e4e05 100644
--- a/resippy/utils/file_utils.py
+++ b/resippy/utils/file_utils.py
@@ -78,7 +78,9 @@ def write_text_list_to_file(text_list,  # type: list
                             output_fname,  # type: str
                             ):              # type: (...) -> None
     text_list_with_newlines = [entry + '\n' for entry in text_list]
-    text_list_with_newlines[-1] = text_list[-1]
+    # a final empty entry keeps its newline, it would be lost otherwise
+    if text_list and text_list[-1] != '':
+        text_list_with_newlines[-1] = text_list[-1]
     with open(output_fname, 'w') as f:
         f.writelines(text_list_with_newlines)
 
-- 
2.43.0


From bb511007ab2c7c3fe9b09bb90b19eef2f9197f7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:18 +0000
Subject: [PATCH 37/71] fix: list files without extensions, with compound
 extensions and not folders

---
 resippy/utils/file_utils.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/resippy/utils/file_utils.py b/resippy/utils/file_utils.py
index 16e4e05..b9c8c33 100644
--- a/resippy/utils/file_utils.py
+++ b/resippy/utils/file_utils.py
@@ -23,9 +23,9 @@ def get_all_files_in_dir(directory,                     # type: str
     sanitized_extensions = []
     if type(extensions) == (type([])):
         for extension in extensions:
-            sanitized_extensions.append(extension.replace(".", "").replace("*", ""))
+            sanitized_extensions.append("*." + extension.lstrip("*."))
     elif type(extensions) == (type("")):
-        sanitized_extensions.append(extensions.replace(".", "").replace("*", ""))
+        sanitized_extensions.append("*." + extensions.lstrip("*."))
     elif extensions is None:
         sanitized_extensions.append("*")
     else:
@@ -33,8 +33,8 @@ def get_all_files_in_dir(directory,                     # type: str
 
     files = []
     for extension in sanitized_extensions:
-        fnames = glob.glob(directory + os.path.sep + "*." + extension)
-        files = files + fnames
+        fnames = glob.glob(os.path.join(glob.escape(directory), extension))
+        files = files + [f for f in fnames if os.path.isfile(f)]
     if return_fullpaths:
         return files
     else:
-- 
2.43.0


From 793e61df0f619cbed3e281ce21795893f6a8ac61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:18 +0000
Subject: [PATCH 38/71] fix: read csv files that hold only a header

---
 resippy/utils/csv_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resippy/utils/csv_utils.py b/resippy/utils/csv_utils.py
index ff125e2..2c3731d 100644
--- a/resippy/utils/csv_utils.py
+++ b/resippy/utils/csv_utils.py
@@ -14,7 +14,7 @@ class CsvUtils:
             reader = csv.reader(f, delimiter=delimiter)
             header = next(reader) # skip header
             data = [row for row in reader]
-            data = np.asarray(data)
+            data = np.asarray(data).reshape(len(data), len(header))
         csv_dict = {}
         for i, header_name in enumerate(header):
             csv_dict[header_name] = data[:, i]
-- 
2.43.0


From 22354f1f0508baa34956f72701bc06cda0dfd6c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:18 +0000
Subject: [PATCH 39/71] fix: keep the types of entries when regrouping lists
 and tuples

---
 resippy/utils/numpy_and_array_utils.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/resippy/utils/numpy_and_array_utils.py b/resippy/utils/numpy_and_array_utils.py
index 77f7b3a..23b0294 100644
--- a/resippy/utils/numpy_and_array_utils.py
+++ b/resippy/utils/numpy_and_array_utils.py
@@ -5,15 +5,12 @@ from typing import Any
 
 def list_of_tuples_to_separate_lists(tuples,        # type: list
                                      ):             # type: (...) -> list
-    return np.array(tuples).transpose().tolist()
+    return [list(entries) for entries in zip(*tuples)]
 
 
 def separate_lists_to_list_of_tuples(lists,         # type: list
                                      ):             # type: (...) -> list
-    list_of_tuples = []
-    for entry in np.transpose(lists):
-        list_of_tuples.append(tuple(entry))
-    return list_of_tuples
+    return list(zip(*lists))
 
 
 def remove_all_entries_from_list(input_list,        # type: list
-- 
2.43.0


From 60298becf8f4597149449a03a2e8110539a0c818 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:18 +0000
Subject: [PATCH 40/71] fix: read the last entry of an ENVI header without a
 final newline

---
 resippy/utils/envi_utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/resippy/utils/envi_utils.py b/resippy/utils/envi_utils.py
index a6260d9..c8402ef 100644
--- a/resippy/utils/envi_utils.py
+++ b/resippy/utils/envi_utils.py
@@ -87,7 +87,8 @@ def read_envi_header(header_fname,      # type: str
     with open(header_fname, 'r') as content_file:
         header_text = content_file.read()
 
-    header_text = string_utils.cleanup_newlines(header_text)
+    # every entry ends with a newline, also the last one
+    header_text = string_utils.cleanup_newlines(header_text) + os.linesep
 
     envi_header_dict = {}
 
-- 
2.43.0


From 10109f9b390fa19678e80ce55c1543e187e84f7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:18 +0000
Subject: [PATCH 41/71] fix: read ENVI header values that contain an equals
 sign

---
 resippy/utils/envi_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resippy/utils/envi_utils.py b/resippy/utils/envi_utils.py
index c8402ef..5084bf9 100644
--- a/resippy/utils/envi_utils.py
+++ b/resippy/utils/envi_utils.py
@@ -132,7 +132,7 @@ def read_envi_header(header_fname,      # type: str
         elif is_equals_entry(header_text):
             linesep_index = header_text.find(os.linesep)
             entry_text = header_text[0:linesep_index]
-            key, val = entry_text.split('=')
+            key, val = entry_text.split('=', 1)
             header_text = header_text[linesep_index + 1:]
 
         elif entry_has_newline(header_text):
-- 
2.43.0


From 1ac6a1f0ef67358bb088ed3873b06ffa2ac311af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:18 +0000
Subject: [PATCH 42/71] fix: map the ENVI complex data types to their numpy
 types

---
 resippy/utils/envi_utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/resippy/utils/envi_utils.py b/resippy/utils/envi_utils.py
index 5084bf9..b3f0516 100644
--- a/resippy/utils/envi_utils.py
+++ b/resippy/utils/envi_utils.py
@@ -8,10 +8,10 @@ ENVI_DTYPES_TO_NUMPY = {"1": np.uint8,
                         "3": np.int32,
                         "4": np.float32,
                         "5": np.float64,
-                        "6": None,
+                        "6": np.complex64,
                         "7": None,
                         "8": None,
-                        "9": np.complex64,
+                        "9": np.complex128,
                         "10": None,
                         "11": None,
                         "12": np.uint16,
-- 
2.43.0


From df7cf5c159141e29c1e1345508fbd9178979a257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:18 +0000
Subject: [PATCH 43/71] fix: read and write every ENVI interleave

---
 resippy/utils/envi_utils.py | 33 +++++++++++++++++----------------
 1 file changed, 17 insertions(+), 16 deletions(-)

diff --git a/resippy/utils/envi_utils.py b/resippy/utils/envi_utils.py
index b3f0516..10118b8 100644
--- a/resippy/utils/envi_utils.py
+++ b/resippy/utils/envi_utils.py
@@ -183,7 +183,6 @@ def write_envi_header(header_dict,      # type: dict
             f.write("\n")
 
 
-# TODO: add more interleave formats, only BIP is currently supported
 def write_envi_image(image_cube,                    # type: np.ndarray
                      output_fname,                  # type: str
                      output_header_fname=None,      # type: str
@@ -192,14 +191,15 @@ def write_envi_image(image_cube,                    # type: np.ndarray
     if output_header_fname is None:
         output_header_fname = output_fname + ".hdr"
     ny, nx, nbands = image_cube.shape
-    raw_data = np.zeros(ny*nx*nbands, dtype=image_cube.dtype)
     if interleave == 'bil':
-        raw_data_counter = 0
-        for l in range(ny):
-            for b in range(nbands):
-                data_chunk = image_cube[l, :, b]
-                raw_data[raw_data_counter:raw_data_counter+nx] = data_chunk
-                raw_data_counter = raw_data_counter+nx
+        raw_data = image_cube.transpose(0, 2, 1)
+    elif interleave == 'bip':
+        raw_data = image_cube
+    elif interleave == 'bsq':
+        raw_data = image_cube.transpose(2, 0, 1)
+    else:
+        raise ValueError("interleave not supported: " + interleave)
+    raw_data = raw_data.ravel()
     raw_data.tofile(output_fname)
 
     envi_dtype = numpy_dtype_to_envi_dtype(image_cube.dtype)
@@ -249,12 +249,13 @@ def construct_image_cube_from_raw_data(raw_envi_data,       # type: np.ndarray
                                        nbands,              # type: int
                                        interleave,          # type: str
                                        ):                   # type: (...) -> np.ndarray
-    image_cube = np.zeros((ny, nx, nbands), dtype=raw_envi_data.dtype)
+    interleave = interleave.lower()
     if interleave == 'bil':
-        raw_data_counter = 0
-        for l in range(ny):
-            for b in range(nbands):
-                data_chunk = raw_envi_data[raw_data_counter:raw_data_counter+nx]
-                image_cube[l, :, b] = data_chunk
-                raw_data_counter = raw_data_counter+nx
-    return image_cube
+        image_cube = np.reshape(raw_envi_data, (ny, nbands, nx)).transpose(0, 2, 1)
+    elif interleave == 'bip':
+        image_cube = np.reshape(raw_envi_data, (ny, nx, nbands))
+    elif interleave == 'bsq':
+        image_cube = np.reshape(raw_envi_data, (nbands, ny, nx)).transpose(1, 2, 0)
+    else:
+        raise ValueError("interleave not supported: " + interleave)
+    return np.ascontiguousarray(image_cube)
-- 
2.43.0


From ee851dd3baf5e1d60e4f8febc6c77428d4293ea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:08 +0000
Subject: [PATCH 44/71] fix: skip malformed navigation lines as a whole

---
 resippy/photogrammetry/nav/applanix_eo_nav.py | 26 +++++++++++--------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/resippy/photogrammetry/nav/applanix_eo_nav.py b/resippy/photogrammetry/nav/applanix_eo_nav.py
index 0d0c715..6955cb0 100644
--- a/resippy/photogrammetry/nav/applanix_eo_nav.py
+++ b/resippy/photogrammetry/nav/applanix_eo_nav.py
@@ -27,17 +27,21 @@ class ApplanixEONav(AbstractNav):
                 line_parts = line.split()
 
                 try:
-                    gps_time.append(float(line_parts[1]))
-                    easting.append(float(line_parts[2]))
-                    northing.append(float(line_parts[3]))
-                    height.append(float(line_parts[4]))
-                    omega.append(float(line_parts[5]))
-                    phi.append(float(line_parts[6]))
-                    kappa.append(float(line_parts[7]))
-                    lat.append(float(line_parts[8]))
-                    lon.append(float(line_parts[9]))
-                except (IndexError, ValueError):
-                    pass
+                    values = [float(part) for part in line_parts[1:10]]
+                    if len(values) < 9:
+                        continue
+                except ValueError:
+                    continue
+
+                gps_time.append(values[0])
+                easting.append(values[1])
+                northing.append(values[2])
+                height.append(values[3])
+                omega.append(values[4])
+                phi.append(values[5])
+                kappa.append(values[6])
+                lat.append(values[7])
+                lon.append(values[8])
 
         self._nav_data = {
             'gps_time': np.array(gps_time),
-- 
2.43.0


From 5d708a4751afac324d469aa382388897bbab03a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:08 +0000
Subject: [PATCH 45/71] fix: compute the equalisation matrix of image cubes
 without masks

---
 resippy/spectral/spectral_image_processing_2d.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/resippy/spectral/spectral_image_processing_2d.py b/resippy/spectral/spectral_image_processing_2d.py
index ef5c91d..71fa7b9 100644
--- a/resippy/spectral/spectral_image_processing_2d.py
+++ b/resippy/spectral/spectral_image_processing_2d.py
@@ -146,8 +146,12 @@ def compute_cov_eq_linear_transform_matrix(input_scene,                 # type:
                                            ):                           # type: (...) -> ndarray
     flattened_1 = spectral_tools.flatten_image_cube(input_scene)
     flattened_2 = spectral_tools.flatten_image_cube(scene_to_match)
-    flattened_mask_1 = image_utils.flatten_image_band(input_scene_mask)
-    flattened_mask_2 = image_utils.flatten_image_band(scene_to_match_mask)
+    flattened_mask_1 = None
+    flattened_mask_2 = None
+    if input_scene_mask is not None:
+        flattened_mask_1 = image_utils.flatten_image_band(input_scene_mask)
+    if scene_to_match_mask is not None:
+        flattened_mask_2 = image_utils.flatten_image_band(scene_to_match_mask)
     big_l = spectral_image_processing_1d.compute_cov_eq_linear_transform_matrix(flattened_1,
                                                                                 flattened_2,
                                                                                 flattened_mask_1,
-- 
2.43.0


From 19e101998733f3d79cacf3606081b44e6151c6b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:08 +0000
Subject: [PATCH 46/71] fix: leave the image cube given to the principal
 component analysis unchanged

---
 resippy/spectral/spectral_image_processing_2d.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resippy/spectral/spectral_image_processing_2d.py b/resippy/spectral/spectral_image_processing_2d.py
index 71fa7b9..96bdcd1 100644
--- a/resippy/spectral/spectral_image_processing_2d.py
+++ b/resippy/spectral/spectral_image_processing_2d.py
@@ -22,7 +22,7 @@ def compute_image_cube_pca(spectral_image,      # type: ndarray
     #                      copy=False)
     pca = PCA(n_components=n_components,
                          whiten=whiten,
-                         copy=False)
+                         copy=True)
 
     xformed = pca.fit_transform(prepped_cube)
     nsamp, ncomp = xformed.shape
-- 
2.43.0


From 5689d43f13672551c35daacddd92ac43375ce044 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:08 +0000
Subject: [PATCH 47/71] fix: compute spectral angles of integer images without
 overflow

---
 resippy/spectral/spectral_image_processing_1d.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/resippy/spectral/spectral_image_processing_1d.py b/resippy/spectral/spectral_image_processing_1d.py
index 6569ec7..1311310 100644
--- a/resippy/spectral/spectral_image_processing_1d.py
+++ b/resippy/spectral/spectral_image_processing_1d.py
@@ -165,6 +165,10 @@ def ace_demeaned(demeaned_image,            # type: ndarray
 def sam(spectral_image,     # type: ndarray
         target_spectra      # type: ndarray
         ):                  # type: (...) -> ndarray
+    # products of integer samples would overflow
+    spectral_image = np.multiply(spectral_image, 1.0)
+    target_spectra = np.multiply(target_spectra, 1.0)
+
     # Python 3.5+
     # numerator = target_spectra @ spectral_image.transpose()
     # Python 2.7 - 3.4
-- 
2.43.0


From 4bba69a3b83e65dbe0fa9e32cea8f2d286f52a06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:17 +0000
Subject: [PATCH 48/71] fix: span the extent of rotated images by their four
 corners

---
 .../earth_overhead_point_calculators/geotiff_point_calc.py  | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/resippy/image_objects/earth_overhead/earth_overhead_point_calculators/geotiff_point_calc.py b/resippy/image_objects/earth_overhead/earth_overhead_point_calculators/geotiff_point_calc.py
index 25d1639..2958587 100644
--- a/resippy/image_objects/earth_overhead/earth_overhead_point_calculators/geotiff_point_calc.py
+++ b/resippy/image_objects/earth_overhead/earth_overhead_point_calculators/geotiff_point_calc.py
@@ -5,7 +5,7 @@ from resippy.image_objects.earth_overhead.earth_overhead_point_calculators.abstr
 import gdal
 import osr
 from pyproj import Proj
-from shapely.geometry.geo import box, Polygon
+from shapely.geometry import Polygon
 import numpy as np
 from numpy import ndarray
 
@@ -135,6 +135,8 @@ class GeotiffPointCalc(AbstractEarthOverheadPointCalc):
 
     def get_world_extent_native(self):  # type: (...) -> Polygon
         lon_ul, lat_ul = self._pixel_x_y_alt_to_lon_lat_native(0, 0)
+        lon_ur, lat_ur = self._pixel_x_y_alt_to_lon_lat_native(self._npix_x, 0)
         lon_br, lat_br = self._pixel_x_y_alt_to_lon_lat_native(self._npix_x, self._npix_y)
-        world_poly = box(lon_ul, lat_br, lon_br, lat_ul)
+        lon_bl, lat_bl = self._pixel_x_y_alt_to_lon_lat_native(0, self._npix_y)
+        world_poly = Polygon([(lon_br, lat_br), (lon_ur, lat_ur), (lon_ul, lat_ul), (lon_bl, lat_bl)])
         return world_poly
-- 
2.43.0


From 98d61c2419fbaf42d24b2f8c919013a3234c2c2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:59 +0000
Subject: [PATCH 49/71] fix: open integer elevation rasters that have no
 missing cells

---
 resippy/photogrammetry/dem/geotiff_dem.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/resippy/photogrammetry/dem/geotiff_dem.py b/resippy/photogrammetry/dem/geotiff_dem.py
index d1959b4..82affa3 100644
--- a/resippy/photogrammetry/dem/geotiff_dem.py
+++ b/resippy/photogrammetry/dem/geotiff_dem.py
@@ -66,9 +66,10 @@ class GeotiffDem(AbstractDem):
         if self.nodata_value is not None:
             if self.dem_data is not None:
                 nodata_locs = np.where(self.dem_data == nodata_value)
-                if nodata_locs[0].size > 0 and not np.issubdtype(self.dem_data.dtype, np.floating):
-                    self.dem_data = self.dem_data.astype(float)
-                self.dem_data[nodata_locs] = np.nan
+                if nodata_locs[0].size > 0:
+                    if not np.issubdtype(self.dem_data.dtype, np.floating):
+                        self.dem_data = self.dem_data.astype(float)
+                    self.dem_data[nodata_locs] = np.nan
 
     def set_geotiff_image(self,
                           geotiff_image  # type: GeotiffImage
-- 
2.43.0


From 3b8f5bbea55a5c97b5b1b708fb99d826668ac745 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:32 +0000
Subject: [PATCH 50/71] fix: keep integer samples below an integer mean from
 wrapping in RX and ACE

---
 resippy/spectral/spectral_image_processing_1d.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/resippy/spectral/spectral_image_processing_1d.py b/resippy/spectral/spectral_image_processing_1d.py
index 1311310..21069be 100644
--- a/resippy/spectral/spectral_image_processing_1d.py
+++ b/resippy/spectral/spectral_image_processing_1d.py
@@ -52,6 +52,8 @@ def rx_anomaly_detector(spectral_image,             # type: ndarray
         scene_covariance = compute_image_cube_spectral_covariance(
             spectral_image)
         inverse_covariance = np.linalg.inv(scene_covariance)
+    # differences of integer samples would overflow
+    spectral_mean = np.multiply(spectral_mean, 1.0)
     demeaned_image = np.subtract(spectral_image, spectral_mean)
 
     # Python 3.5+
@@ -88,6 +90,8 @@ def ace(spectral_image,             # type: ndarray
         scene_covariance = compute_image_cube_spectral_covariance(
             spectral_image, image_mask)
         inverse_covariance = np.linalg.inv(scene_covariance)
+    # differences of integer samples would overflow
+    spectral_mean = np.multiply(spectral_mean, 1.0)
     demeaned_image = np.subtract(spectral_image, spectral_mean)
     demeaned_target_sig_array = target_spectra - spectral_mean
 
-- 
2.43.0


From 14a7b0697766aa5c0b7eaa0334b1f8e975d2bfe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:28 +0000
Subject: [PATCH 51/71] fix: size a full orthorectification in meters, over the
 extent in the output projection

---
 resippy/photogrammetry/ortho_tools.py | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/resippy/photogrammetry/ortho_tools.py b/resippy/photogrammetry/ortho_tools.py
index 7f4a37a..c45c469 100644
--- a/resippy/photogrammetry/ortho_tools.py
+++ b/resippy/photogrammetry/ortho_tools.py
@@ -137,14 +137,24 @@ def create_full_ortho_gtiff_image(overhead_image,  # type: AbstractEarthOverhead
         gsd_y = distance_along_y / ny
         gsd_meters = (gsd_x + gsd_y) / 2.0
 
-    ortho_x_dist = np.abs(extent.bounds[2] - extent.bounds[0])
-    ortho_y_dist = np.abs(extent.bounds[3] - extent.bounds[1])
+    if output_proj is None:
+        output_proj = overhead_image.pointcalc.get_projection()
+    elif output_proj.srs != overhead_image.pointcalc.get_projection().srs:
+        extent_x, extent_y = extent.exterior.coords.xy
+        extent_x, extent_y = transform(overhead_image.pointcalc.get_projection(), output_proj,
+                                       np.array(extent_x), np.array(extent_y))
+        extent = Polygon(list(zip(extent_x, extent_y)))
+
+    # the gsd is in meters, whatever the units of the output projection are
+    minx, miny, maxx, maxy = extent.bounds
+    corners_x, corners_y = transform(output_proj, local_proj,
+                                     np.array([minx, maxx, minx]), np.array([miny, miny, maxy]))
+    ortho_x_dist = math.hypot(corners_x[1] - corners_x[0], corners_y[1] - corners_y[0])
+    ortho_y_dist = math.hypot(corners_x[2] - corners_x[0], corners_y[2] - corners_y[0])
 
     ortho_nx = int(ortho_x_dist / gsd_meters)
     ortho_ny = int(ortho_y_dist / gsd_meters)
 
-    if output_proj is None:
-        output_proj = overhead_image.pointcalc.get_projection()
     return create_ortho_gtiff_image_world_to_sensor(overhead_image,
                                                     ortho_nx,
                                                     ortho_ny,
-- 
2.43.0


From 99400d652c6e569393b1391cf94842416a3559cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:47 +0000
Subject: [PATCH 52/71] fix: mark nodata in spectra with integer values

---
 resippy/spectral/spectrum.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resippy/spectral/spectrum.py b/resippy/spectral/spectrum.py
index 493a2a4..d227e26 100644
--- a/resippy/spectral/spectrum.py
+++ b/resippy/spectral/spectrum.py
@@ -39,7 +39,7 @@ class Spectrum:
         spectral_data = copy.deepcopy(self._spectral_data)
         if nodata_to_nan:
             # spectral_data_nodata_replaced = copy.deepcopy(self._spectral_data)
-            spectral_data[np.where(spectral_data == self.get_nodata_val())] = np.nan
+            spectral_data = np.where(spectral_data == self.get_nodata_val(), np.nan, spectral_data)
         if with_units:
             spectral_data = spectral_data * self.get_spectrum_units()
         return spectral_data
-- 
2.43.0


From 6dd791ff0b6f4454488b9996fb051703e8ea6aa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:47 +0000
Subject: [PATCH 53/71] fix: find the wavelengths of a USGS spectrum given by a
 relative name

---
 .../usgs/ascii/usgs_ascii_spectral_factory.py                   | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resippy/spectral/spectrum_factories/usgs/ascii/usgs_ascii_spectral_factory.py b/resippy/spectral/spectrum_factories/usgs/ascii/usgs_ascii_spectral_factory.py
index 2a92ea8..4c741d6 100644
--- a/resippy/spectral/spectrum_factories/usgs/ascii/usgs_ascii_spectral_factory.py
+++ b/resippy/spectral/spectrum_factories/usgs/ascii/usgs_ascii_spectral_factory.py
@@ -17,7 +17,7 @@ class UsgsAsciiSpectralFactory:
     @classmethod
     def from_ascii_file(cls, filename   # type: str
                         ):              # type: (...) -> Spectrum
-        metadata_dir = os.path.dirname(os.path.dirname(filename))
+        metadata_dir = os.path.dirname(os.path.dirname(os.path.abspath(filename)))
         wavelengths_fname = cls.get_wavelengths_fname(metadata_dir)
         wavelengths = cls.read_ascii_wavelengths(wavelengths_fname)
         fwhm_fname = cls.get_fwhm_fname(metadata_dir)
-- 
2.43.0


From a0be28838655aec53ee7e70e402f5cac35447c66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:42 +0000
Subject: [PATCH 54/71] fix: keep rounding from adding a position to finely
 divided pixel grids

---
 resippy/utils/image_utils/image_utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/resippy/utils/image_utils/image_utils.py b/resippy/utils/image_utils/image_utils.py
index 284b5be..3f38386 100644
--- a/resippy/utils/image_utils/image_utils.py
+++ b/resippy/utils/image_utils/image_utils.py
@@ -72,8 +72,8 @@ def create_pixel_grid(nx_pixels,  # type: int
                       ny_pixels,  # type: int
                       scale_factor=1  # type: float
                       ):  # type: (...) -> (ndarray, ndarray)
-    x = np.arange(0, nx_pixels, (1.0 / scale_factor))
-    y = np.arange(0, ny_pixels, (1.0 / scale_factor))
+    x = np.arange(0, nx_pixels * scale_factor) / scale_factor
+    y = np.arange(0, ny_pixels * scale_factor) / scale_factor
     xx, yy = np.meshgrid(x, y, sparse=False)
     return xx, yy
 
-- 
2.43.0


From 562812dc51408cd7c3c3f02495e48d537465e3ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:53 +0000
Subject: [PATCH 55/71] fix: keep the range of wide integer images from
 overflowing in stepped colour maps

---
 resippy/utils/image_utils/image_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resippy/utils/image_utils/image_utils.py b/resippy/utils/image_utils/image_utils.py
index 3f38386..c2f24b9 100644
--- a/resippy/utils/image_utils/image_utils.py
+++ b/resippy/utils/image_utils/image_utils.py
@@ -202,7 +202,7 @@ def apply_colormap_to_grayscale_image(grayscale_image,  # type: ndarray
         n_bins = np.shape(color_palette)[0]
 
     if continuous is not True:
-        max_clip = min_clip + (max_clip - min_clip) * (n_bins - 1) / n_bins
+        max_clip = min_clip + (float(max_clip) - float(min_clip)) * (n_bins - 1) / n_bins
 
     palette_indices = np.linspace(min_clip, max_clip, n_bins)
     image_low_index_map = np.zeros(grayscale_image.shape, dtype=int)
-- 
2.43.0


From 94b9722eebd2354efb60a5e6cb0f8ca6b1ec5b30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:25 +0000
Subject: [PATCH 56/71] fix: ask the simulator's source for its pixels in the
 camera's own projection

---
 resippy/utils/physical_camera_simulator.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/resippy/utils/physical_camera_simulator.py b/resippy/utils/physical_camera_simulator.py
index 127dd37..9d69420 100644
--- a/resippy/utils/physical_camera_simulator.py
+++ b/resippy/utils/physical_camera_simulator.py
@@ -131,7 +131,8 @@ class PhysicalCameraSimulator:
         gtiff_x_vals, gtiff_y_vals = self._gtiff_image_object.get_point_calculator().lon_lat_alt_to_pixel_x_y(
             pass1_lons,
             pass1_lats,
-            numpy.zeros_like(pass1_lons))
+            numpy.zeros_like(pass1_lons),
+            point_calc.get_projection())
 
         if self._gtiff_image_data is None:
             self._gtiff_image_data = self._gtiff_image_object.read_band_from_disk(0)
-- 
2.43.0


From f67fdc6e46a6ac16a9bb8fe3de36bf11a0b97db5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:25 +0000
Subject: [PATCH 57/71] fix: keep told nodata values through geoid conversions

---
 resippy/photogrammetry/dem/geotiff_dem.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/resippy/photogrammetry/dem/geotiff_dem.py b/resippy/photogrammetry/dem/geotiff_dem.py
index 82affa3..f08ee9d 100644
--- a/resippy/photogrammetry/dem/geotiff_dem.py
+++ b/resippy/photogrammetry/dem/geotiff_dem.py
@@ -39,7 +39,8 @@ class GeotiffDem(AbstractDem):
                                  ):  # type: (...) -> None
         src_srs = self.gtiff.get_point_calculator().get_projection().srs
         dst_srs = src_srs + ' +geoidgrids=' + geoidgrid_fname
-        ops = gdal.WarpOptions(srcSRS=src_srs, dstSRS=dst_srs)
+        ops = gdal.WarpOptions(srcSRS=src_srs, dstSRS=dst_srs,
+                               srcNodata=self.nodata_value, dstNodata=self.nodata_value)
 
         new_gtiff = GeotiffImage.gdalwarp_geotiff_image(self.gtiff, ops, dst_fname)
 
@@ -52,7 +53,8 @@ class GeotiffDem(AbstractDem):
                                      ):                 # type: (...) -> None
         dst_srs = self.gtiff.get_point_calculator().get_projection().srs
         src_srs = dst_srs + ' +geoidgrids=' + geoidgrid_fname
-        ops = gdal.WarpOptions(srcSRS=src_srs, dstSRS=dst_srs)
+        ops = gdal.WarpOptions(srcSRS=src_srs, dstSRS=dst_srs,
+                               srcNodata=self.nodata_value, dstNodata=self.nodata_value)
 
         new_gtiff = GeotiffImage.gdalwarp_geotiff_image(self.gtiff, ops, dst_fname)
 
-- 
2.43.0


From 02359c4e4f9a621424dd9ce4aa12fb7b4d2ee2a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:15 +0000
Subject: [PATCH 58/71] fix: read fractional degrees and minutes of image
 header positions

---
 .../earth_overhead/micasense/micasense_image.py             | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/resippy/image_objects/earth_overhead/micasense/micasense_image.py b/resippy/image_objects/earth_overhead/micasense/micasense_image.py
index b3ae344..0aeb0cb 100644
--- a/resippy/image_objects/earth_overhead/micasense/micasense_image.py
+++ b/resippy/image_objects/earth_overhead/micasense/micasense_image.py
@@ -67,10 +67,10 @@ class MicasenseImage(AbstractEarthOverheadImage):
         dms = dms_tag.values
         ref = ref_tag.values
 
-        d = dms[0].num
-        m = dms[1].num
+        d = dms[0].num / dms[0].den
+        m = dms[1].num / dms[1].den
         s = dms[2].num / dms[2].den
 
         sign = -1 if ref == 'S' or ref == 'W' else 1
 
-        return sign * (int(d) + float(m) / 60 + float(s) / 3600)
+        return sign * (float(d) + float(m) / 60 + float(s) / 3600)
-- 
2.43.0


From 0e5d051ce9df4c2ffd22c8dd9b63ecf294960022 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:15 +0000
Subject: [PATCH 59/71] fix: keep leading zeros of the fraction of a second in
 image headers

---
 .../image_objects/earth_overhead/micasense/micasense_image.py   | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resippy/image_objects/earth_overhead/micasense/micasense_image.py b/resippy/image_objects/earth_overhead/micasense/micasense_image.py
index 0aeb0cb..60261fa 100644
--- a/resippy/image_objects/earth_overhead/micasense/micasense_image.py
+++ b/resippy/image_objects/earth_overhead/micasense/micasense_image.py
@@ -44,7 +44,7 @@ class MicasenseImage(AbstractEarthOverheadImage):
         __, seconds_in_week = time_utils.utc_timestamp_to_gps_week_and_seconds(utc_timestamp)
 
         timestamp_decimal_str = str(exif_data['EXIF SubSecTime'])
-        timestamp_decimal = float('0.{}'.format(int(timestamp_decimal_str)))
+        timestamp_decimal = float('0.{}'.format(timestamp_decimal_str.strip()))
 
         output_dict = {'gps_timestamp': seconds_in_week + timestamp_decimal}
 
-- 
2.43.0


From ab087bea63ee6ddd76b5e187476c42568541b417 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:05 +0000
Subject: [PATCH 60/71] fix: measure only inside the image around points near
 its left and top edges

---
 resippy/photogrammetry/ortho_tools.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/resippy/photogrammetry/ortho_tools.py b/resippy/photogrammetry/ortho_tools.py
index c45c469..3a1cbde 100644
--- a/resippy/photogrammetry/ortho_tools.py
+++ b/resippy/photogrammetry/ortho_tools.py
@@ -43,10 +43,11 @@ def get_pixel_values(image_object,  # type: AbstractEarthOverheadImage
         vals = []
         for item in locs:
             try:
-                xmin = item[0] - wh
-                xmax = item[0] + wh
-                ymin = item[1] - wh
-                ymax = item[1] + wh
+                # negative indices would count from the opposite edge of the image
+                xmin = max(item[0] - wh, 0)
+                xmax = max(item[0] + wh, 0)
+                ymin = max(item[1] - wh, 0)
+                ymax = max(item[1] + wh, 0)
                 pix_win = img[ymin:ymax, xmin:xmax]
                 good_inds = pix_win != nodata
                 val = np.mean(pix_win[good_inds])
-- 
2.43.0


From bc0243c9fa868fb807a138676f1d7b45185f4a57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:05 +0000
Subject: [PATCH 61/71] fix: measure windows of odd size over as many pixels as
 asked for

---
 resippy/photogrammetry/ortho_tools.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/resippy/photogrammetry/ortho_tools.py b/resippy/photogrammetry/ortho_tools.py
index 3a1cbde..0ad63ca 100644
--- a/resippy/photogrammetry/ortho_tools.py
+++ b/resippy/photogrammetry/ortho_tools.py
@@ -34,7 +34,7 @@ def get_pixel_values(image_object,  # type: AbstractEarthOverheadImage
                      ):  # type: (...) -> ndarray
 
     nodata = image_object.get_metadata().get_nodata_val()
-    wh = np.round(window/2.0).astype(int)
+    wh = int(window) // 2
     pix_vals = []
     for band in range(image_object.get_metadata().get_n_bands()):
         img = image_object.read_band_from_disk(band)
@@ -45,9 +45,9 @@ def get_pixel_values(image_object,  # type: AbstractEarthOverheadImage
             try:
                 # negative indices would count from the opposite edge of the image
                 xmin = max(item[0] - wh, 0)
-                xmax = max(item[0] + wh, 0)
+                xmax = max(item[0] - wh + window, 0)
                 ymin = max(item[1] - wh, 0)
-                ymax = max(item[1] + wh, 0)
+                ymax = max(item[1] - wh + window, 0)
                 pix_win = img[ymin:ymax, xmin:xmax]
                 good_inds = pix_win != nodata
                 val = np.mean(pix_win[good_inds])
-- 
2.43.0


From fc94f5830125eacdc7d0c46363d3edfc05988bd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:46 +0000
Subject: [PATCH 62/71] fix: keep the nodata value outside of warped images

---
 resippy/utils/image_utils/image_utils.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/resippy/utils/image_utils/image_utils.py b/resippy/utils/image_utils/image_utils.py
index c2f24b9..7ec8ee8 100644
--- a/resippy/utils/image_utils/image_utils.py
+++ b/resippy/utils/image_utils/image_utils.py
@@ -50,6 +50,11 @@ def grid_warp_image_band(image_to_warp,  # type: ndarray
 
     warped_image = sktransform.warp(image_to_warp, coords, preserve_range=True,
                                     mode='constant', cval=nodata_val, order=order)
+    if np.issubdtype(warped_image.dtype, np.floating):
+        # interpolation rounds the nodata value, and is then limited to the range of the source image
+        ny, nx = image_to_warp.shape[0:2]
+        outside = (coords[0] <= -1) | (coords[0] >= ny) | (coords[1] <= -1) | (coords[1] >= nx)
+        warped_image[outside] = nodata_val
     return warped_image
 
 
-- 
2.43.0


From 0c411b4973186671a4f06e5ad6998b7025e81554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:57 +0000
Subject: [PATCH 63/71] fix: chips can be scored without a chain ledger, as the
 default promises

---
 .../neural_net_model_scoring/keras_image_scoring.py            | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/resippy/image_recognition/neural_net_model_scoring/keras_image_scoring.py b/resippy/image_recognition/neural_net_model_scoring/keras_image_scoring.py
index 5e04b8e..a211544 100644
--- a/resippy/image_recognition/neural_net_model_scoring/keras_image_scoring.py
+++ b/resippy/image_recognition/neural_net_model_scoring/keras_image_scoring.py
@@ -43,7 +43,8 @@ def chip_and_score_image(input_image,               # type: np.ndarray
 
         preds = trained_keras_model.predict(chip)
         scores.append(preds)
-        atk_chain_ledger.set_status('scoring image chips', (i / n_chips) * 100)
+        if atk_chain_ledger is not None:
+            atk_chain_ledger.set_status('scoring image chips', (i / n_chips) * 100)
 
     scores = np.squeeze(np.array(scores))
     if labels is not None and thing_to_find is not None:
-- 
2.43.0


From b896413de7b593ff64b40b2fae0e018831db6f94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:15 +0000
Subject: [PATCH 64/71] fix: the scores of one label are found also for a
 single chip or a single label

---
 .../neural_net_model_scoring/keras_image_scoring.py         | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/resippy/image_recognition/neural_net_model_scoring/keras_image_scoring.py b/resippy/image_recognition/neural_net_model_scoring/keras_image_scoring.py
index a211544..3fb026e 100644
--- a/resippy/image_recognition/neural_net_model_scoring/keras_image_scoring.py
+++ b/resippy/image_recognition/neural_net_model_scoring/keras_image_scoring.py
@@ -46,8 +46,10 @@ def chip_and_score_image(input_image,               # type: np.ndarray
         if atk_chain_ledger is not None:
             atk_chain_ledger.set_status('scoring image chips', (i / n_chips) * 100)
 
-    scores = np.squeeze(np.array(scores))
+    scores = np.array(scores)
     if labels is not None and thing_to_find is not None:
         thing_to_find_index = labels.index(thing_to_find)
-        scores = scores[:, thing_to_find_index]
+        scores = scores.reshape(n_chips, -1)[:, thing_to_find_index]
+    else:
+        scores = np.squeeze(scores)
     return scores, upper_left_yx_locs
-- 
2.43.0


From 307843986202a9feb1fef710f3e47eadf748d98a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:31 +0000
Subject: [PATCH 65/71] fix: the labels of a trained network are listed in the
 order of its outputs

---
 .../neural_net_model_training/keras_model_training.py          | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/resippy/image_recognition/neural_net_model_training/keras_model_training.py b/resippy/image_recognition/neural_net_model_training/keras_model_training.py
index 344584d..62db26e 100644
--- a/resippy/image_recognition/neural_net_model_training/keras_model_training.py
+++ b/resippy/image_recognition/neural_net_model_training/keras_model_training.py
@@ -130,7 +130,8 @@ def train_model(base_model,                                 # type: Model
     filepath = os.path.join(output_dir, model_output_fname)
 
     labels_fname = os.path.join(output_dir, "labels.txt")
-    sorted_class_labels = sorted(list(training_generator.class_indices.keys()))
+    class_indices = training_generator.class_indices
+    sorted_class_labels = sorted(class_indices, key=class_indices.get)
     class_labels_fname = os.path.join(output_dir, "labels.txt")
     file_utils.write_text_list_to_file(sorted_class_labels, class_labels_fname)
 
-- 
2.43.0


From 7ab6a5a797c91b062fa93d18dccc90cda0ed94fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:23 +0000
Subject: [PATCH 66/71] fix: an image in memory can be warped without naming an
 output file

---
 resippy/image_objects/earth_overhead/geotiff/geotiff_image.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/resippy/image_objects/earth_overhead/geotiff/geotiff_image.py b/resippy/image_objects/earth_overhead/geotiff/geotiff_image.py
index e295263..6072c81 100644
--- a/resippy/image_objects/earth_overhead/geotiff/geotiff_image.py
+++ b/resippy/image_objects/earth_overhead/geotiff/geotiff_image.py
@@ -160,6 +160,9 @@ class GeotiffImage(AbstractEarthOverheadImage):
         src_dataset = image.get_dset()
         if src_dataset is None:
             src_dataset = image.get_gdal_mem_datset()
+            if dst_fname is None:
+                # a virtual file can not refer to a dataset that is only in memory
+                dst_fname = "/vsimem/tmp_gdalwarp_geotiff.tif"
 
         if dst_fname is None:
             dst_fname="/vsimem/tmp_gdalwarp_geotiff.vrt"
-- 
2.43.0


From 9df1b4683954d1eae3b8aea189d45cd73d4e90bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:41 +0000
Subject: [PATCH 67/71] fix: terrain in another projection than the image's
 also obstructs pixels

---
 resippy/photogrammetry/ortho_tools.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/resippy/photogrammetry/ortho_tools.py b/resippy/photogrammetry/ortho_tools.py
index 0ad63ca..b80332b 100644
--- a/resippy/photogrammetry/ortho_tools.py
+++ b/resippy/photogrammetry/ortho_tools.py
@@ -406,7 +406,7 @@ def are_pixels_obstructed_by_dem(earth_overhead_image,      # type: AbstractEart
     highest_alts = np.zeros(np.shape(pixels_x)) + dem.get_highest_alt() + 0.001
 
     if alts is None:
-        alts = dem.get_elevations(lons, lats)
+        alts = dem.get_elevations(lons, lats, world_proj=earth_overhead_image.get_point_calculator().get_projection())
 
     obstructed_mask = np.zeros_like(lons)
 
@@ -420,7 +420,7 @@ def are_pixels_obstructed_by_dem(earth_overhead_image,      # type: AbstractEart
     for step in np.arange(1, n_dem_steps):
         test_lons = lons + lon_diffs * (step) / n_dem_steps
         test_lats = lats + lat_diffs * (step) / n_dem_steps
-        test_alts = dem.get_elevations(test_lons, test_lats)
+        test_alts = dem.get_elevations(test_lons, test_lats, world_proj=earth_overhead_image.get_point_calculator().get_projection())
         obstruction_heights = alts + vertical_distances * step / n_dem_steps
         obstructed_mask[np.where(test_alts > obstruction_heights)] = 1
     return obstructed_mask
-- 
2.43.0


From 56fe8a4293be7302897826cc7389edc9630ecf43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:14:58 +0000
Subject: [PATCH 68/71] fix: ENVI images with a header offset or big endian
 samples are read as their header says

---
 resippy/utils/envi_utils.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/resippy/utils/envi_utils.py b/resippy/utils/envi_utils.py
index 10118b8..d7b7f22 100644
--- a/resippy/utils/envi_utils.py
+++ b/resippy/utils/envi_utils.py
@@ -230,17 +230,23 @@ def read_envi_image(image_file,             # type: str
     nbands = int(envi_header['bands'])
     envi_dtype = envi_header['data type']
     interleave = envi_header['interleave']
-    envi_image_data = read_all_image_data_to_numpy_array(image_file, envi_dtype)
+    header_offset = int(envi_header.get('header offset', 0))
+    byte_order = int(envi_header.get('byte order', 0))
+    envi_image_data = read_all_image_data_to_numpy_array(image_file, envi_dtype, header_offset, byte_order)
     image_cube = construct_image_cube_from_raw_data(envi_image_data, nx, ny, nbands, interleave)
     return image_cube
 
 
 def read_all_image_data_to_numpy_array(envi_image_path,     # type: str
                                        envi_dtype,          # type: int
+                                       header_offset=0,     # type: int
+                                       byte_order=0,        # type: int
                                        ):                   # type: (...) -> np.ndarray
-    numpy_dtype = envi_dtype_to_numpy_dtype(envi_dtype)
-    numpy_data = np.fromfile(envi_image_path, numpy_dtype)
-    return numpy_data
+    # byte order 0 is little endian, 1 is big endian, and the samples begin header_offset bytes into the file
+    numpy_dtype = np.dtype(envi_dtype_to_numpy_dtype(envi_dtype))
+    file_dtype = numpy_dtype.newbyteorder('>' if byte_order == 1 else '<')
+    numpy_data = np.fromfile(envi_image_path, file_dtype, offset=header_offset)
+    return numpy_data.astype(numpy_dtype, copy=False)
 
 
 def construct_image_cube_from_raw_data(raw_envi_data,       # type: np.ndarray
-- 
2.43.0


From efa7e83ab3b4057546d954ce1da7bb744ae6cdb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:43:37 +0000
Subject: [PATCH 69/71] fix: create_M_matrix refuses orders it does not know
 instead of returning zeros

---
 resippy/utils/photogrammetry_utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/resippy/utils/photogrammetry_utils.py b/resippy/utils/photogrammetry_utils.py
index bb85c2b..c1ae4a3 100644
--- a/resippy/utils/photogrammetry_utils.py
+++ b/resippy/utils/photogrammetry_utils.py
@@ -160,6 +160,8 @@ def create_M_matrix(omega_radians,      # type: float
             m_matrix = m_phi @ m_omega @ m_kappa
         elif order == 'ypr':
             m_matrix = m_omega @ m_phi @ m_kappa
+        else:
+            raise ValueError("order not supported: " + order)
 
         return m_matrix
 
-- 
2.43.0


From 4d281974d610d420b5b23009098125e003d63dd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:43:37 +0000
Subject: [PATCH 70/71] fix: write_envi_image refuses types ENVI does not know
 before touching the file

---
 resippy/utils/envi_utils.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/resippy/utils/envi_utils.py b/resippy/utils/envi_utils.py
index d7b7f22..48ea459 100644
--- a/resippy/utils/envi_utils.py
+++ b/resippy/utils/envi_utils.py
@@ -199,11 +199,14 @@ def write_envi_image(image_cube,                    # type: np.ndarray
         raw_data = image_cube.transpose(2, 0, 1)
     else:
         raise ValueError("interleave not supported: " + interleave)
+    # find out whether the type can be written before touching the file
+    envi_dtype = numpy_dtype_to_envi_dtype(image_cube.dtype)
+    if envi_dtype is None:
+        raise TypeError("data type not supported: " + str(image_cube.dtype))
+
     raw_data = raw_data.ravel()
     raw_data.tofile(output_fname)
 
-    envi_dtype = numpy_dtype_to_envi_dtype(image_cube.dtype)
-
     envi_header = {}
     envi_header['samples'] = int(nx)
     envi_header['lines'] = int(ny)
-- 
2.43.0


From 9ae642ffff278ae7d6e75d5ee3185f225a5daeaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:43:37 +0000
Subject: [PATCH 71/71] fix: read_envi_image refuses data types it does not
 know instead of reading doubles

---
 resippy/utils/envi_utils.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/resippy/utils/envi_utils.py b/resippy/utils/envi_utils.py
index 48ea459..f524a7c 100644
--- a/resippy/utils/envi_utils.py
+++ b/resippy/utils/envi_utils.py
@@ -246,7 +246,10 @@ def read_all_image_data_to_numpy_array(envi_image_path,     # type: str
                                        byte_order=0,        # type: int
                                        ):                   # type: (...) -> np.ndarray
     # byte order 0 is little endian, 1 is big endian, and the samples begin header_offset bytes into the file
-    numpy_dtype = np.dtype(envi_dtype_to_numpy_dtype(envi_dtype))
+    numpy_dtype = envi_dtype_to_numpy_dtype(envi_dtype)
+    if numpy_dtype is None:
+        raise TypeError("data type not supported: " + str(envi_dtype))
+    numpy_dtype = np.dtype(numpy_dtype)
     file_dtype = numpy_dtype.newbyteorder('>' if byte_order == 1 else '<')
     numpy_data = np.fromfile(envi_image_path, file_dtype, offset=header_offset)
     return numpy_data.astype(numpy_dtype, copy=False)
-- 
2.43.0

