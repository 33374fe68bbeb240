#!/usr/bin/env python3
"""Writes /verif/properties.jsonl from the table below (one place to edit)."""
import json
import os

R = "resippy/"
PC = R + "image_objects/earth_overhead/earth_overhead_point_calculators/"
P = []


def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    assert len(title) <= 80, (id, len(title))
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": qtext},
        "why_tests_cant": why,
        "anchors": {
            "files": files,
            "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
            "mechanism": [{"name": n, "where": w} for n, w in mech],
            "observe_at": list(observe),
            "hook_needed": None,
        }})


prop("C01", "GeoTIFF write/read preserves pixels, type, georeferencing and nodata",
     "An image built from an array with a geotransform, a projection and an optional nodata value, written to a GeoTIFF and opened again, has the same width, height, band count, sample type, name of its file, pixel values in the same (row, column, band) places, geotransform, nodata value and coordinate reference system. "
     "The same holds for the in-memory GDAL dataset the image can be turned into, for every supported compression, and after any number of write/open generations.",
     ["inputs", "histories"],
     "every array shape, sample type, geotransform (including rotated and south-up), projection, nodata value (including fractional and NaN) and compression; chains of write/open",
     "The tests write one uint8-like uniform image and compare a few values; they never check nodata, geotransform with rotation, band order with distinct bands, or repeated generations.",
     [R + "image_objects/earth_overhead/geotiff/geotiff_image.py", R + "image_objects/earth_overhead/geotiff/geotiff_metadata.py",
      R + "image_objects/earth_overhead/geotiff/geotiff_image_factory.py", PC + "geotiff_point_calc.py"],
     [("GeotiffImage.write_to_disk / get_gdal_mem_datset / init_from_file / init_from_numpy_array", "geotiff/geotiff_image.py"),
      ("GeotiffPointCalc.init_from_file, get_gdal_projection_wkt", "geotiff_point_calc.py")],
     observe=["read_all_image_data_from_disk", "metadata getters", "point calculator getters"])

prop("C02", "GeoTIFF images show the last data set; disk reads show the last data written",
     "Over any sequence of opening, reading, setting whole images, setting single bands and writing, reading an image's data returns, for a GeoTIFF image object, what was last set or loaded into that object, and setting one band changes that band only. "
     "Reading from disk always returns what was last written to the file, never unsaved changes; writing an image that was opened from a file and not changed reproduces that file's content, also onto the same path. "
     "An image whose data has not been loaded reports no data (rather than failing), and operations on one image object never change another; giving an object a new whole image does not alter the array it held before.",
     ["histories"],
     "all histories of open/read/set/set-band/write over several image objects and files",
     "Each test performs one constructor and one read; none interleaves setting, writing and reading on the same object or file.",
     [R + "image_objects/abstract_image.py", R + "image_objects/earth_overhead/geotiff/geotiff_image.py"],
     [("AbstractImage.get/set_image_data, get/set_image_band", "abstract_image.py"), ("GeotiffImage.write_to_disk lazily loading", "geotiff_image.py")],
     state=[("_image_data", "pixels held in memory, absent until set or loaded", "abstract_image.py"), ("_dset", "open file the object reads from", "geotiff_image.py")])

prop("C03", "ENVI images and headers read back what was written",
     "An image cube written as an ENVI image and read back, by this library's reader or through its ENVI image object, has the same shape, sample type and values at every (line, sample, band), for each supported interleave and sample type; so does a given file whose header names an offset of the samples or the byte order of their numbers. "
     "Reading a header returns every entry with its key and its value, whether bracketed over several lines or not, with numbers for the numeric entries and number arrays for wavelengths and band widths, independent of entry order, blank lines, spacing and a final newline.",
     ["inputs"],
     "all cube shapes, sample types and interleaves; all header texts built from the documented entry forms",
     "No test touches the ENVI reader, writer or header parser.",
     [R + "utils/envi_utils.py", R + "image_objects/envi/envi_image.py", R + "image_objects/envi/envi_metadata.py", R + "utils/string_utils.py"],
     [("write_envi_image / read_envi_image / construct_image_cube_from_raw_data", "envi_utils.py"), ("read_envi_header tokeniser", "envi_utils.py"), ("ENVI_DTYPES_TO_NUMPY", "envi_utils.py")])

prop("C04", "GeoTIFF pixel and world coordinates are exact inverses of the geotransform",
     "For a georeferenced image, the world position of pixel (x, y) is the affine geotransform applied to (x, y), the pixel position of a world point is its inverse, and each undoes the other, in the native projection or any other requested one, whatever the altitude. "
     "The native world extent is the quadrilateral through the four outer corners of the image.",
     ["inputs"],
     "all invertible geotransforms (rotated, sheared, any sign of pixel size), pixel and world positions, projections",
     "The tests use one north-up geotransform and never the extent, rotation terms or another projection.",
     [PC + "geotiff_point_calc.py", PC + "abstract_earth_overhead_point_calc.py"],
     [("GeotiffPointCalc.set_geot / native transforms / get_world_extent_native", "geotiff_point_calc.py")])

prop("C05", "Coordinate conversions are elementwise and shape preserving for every sensor",
     "For every point calculator, converting scalars, 1-d arrays or 2-d arrays of world points gives pixel results of the input's shape, where each element equals the result of converting that point alone. "
     "Supplying points in another projection gives the same pixels as reprojecting the points first, a single altitude is applied to every point, and a missing altitude means zero.",
     ["inputs", "configurations"],
     "all calculators (GeoTIFF, pinhole, OpenCV, Pix4D, RPC, IGM, multi-band), scalar/1-d/2-d shapes incl. non-square, altitude forms and projections",
     "Tests convert single points or one array for one calculator and never compare shapes, elementwise agreement or projections.",
     [PC + "abstract_earth_overhead_point_calc.py"],
     [("lon_lat_alt_to_pixel_x_y flattening/reshaping and reprojection", "abstract_earth_overhead_point_calc.py")])

prop("C06", "Pixel-to-world inversion lands on the pixel at the given altitude",
     "For every frame sensor, the world position returned for a pixel and an altitude maps back, at that altitude, to that pixel within the requested pixel tolerance whenever the iteration limit is not reached, for scalars, 1-d and 2-d pixel arrays and per-pixel altitudes, in the shape of the input.",
     ["inputs", "configurations"],
     "all sensor orientations (any heading, moderate tilt), positions, altitudes, pixel positions and tolerances",
     "Tests invert one nadir camera with zero heading at one altitude.",
     [PC + "abstract_earth_overhead_point_calc.py", PC + "ideal_pinhole_fpa_local_utm_point_calc.py"],
     [("_pixel_x_y_alt_to_lon_lat_native_solver (Newton iteration with finite differences)", "abstract_earth_overhead_point_calc.py")])

prop("C07", "Rotation matrices are proper rotations composed in the stated order",
     "For every angle triple and each of the six axis orders, the rotation matrix is orthonormal with determinant one and equals the product of the three elementary rotations applied in that order. "
     "The angles recovered from a roll-pitch-yaw matrix rebuild that matrix, for any roll and heading and any pitch short of vertical, and the boresight offset between two rotations turns the first into the second.",
     ["inputs"],
     "all angle triples, all six orders",
     "Tests sample a handful of positive angles; wrong signs, orders or quadrants at other angles go unnoticed.",
     [R + "utils/photogrammetry_utils.py"],
     [("create_M_matrix", "photogrammetry_utils.py"), ("solve_for_omega_phi_kappa, solve_for_boresight_angle_offsets", "photogrammetry_utils.py")])

prop("C08", "A fixtured camera's pose composes fixture pose, boresight and lever arm",
     "The camera's absolute rotation is its boresight rotation times the fixture rotation, and its absolute position is the fixture position plus its lever arm rotated into the world, whichever units and axis order each was given in. "
     "Only the most recent setting of each of position, orientation, boresight and lever arm counts, in whatever order they were set.",
     ["histories", "inputs"],
     "all sequences of setter calls with all units and orders",
     "Tests set each parameter once, rotate about one axis, and the lever-arm tests cannot run.",
     [PC + "fixtured_camera.py"],
     [("FixturedCamera setters and get_camera_absolute_*", "fixtured_camera.py")],
     state=[("fixture pose, relative boresight matrix, relative lever arm", "last set values", "fixtured_camera.py")])

prop("C09", "Ideal frame cameras image world points by collinearity",
     "An ideal camera maps a world point to focal-plane coordinates by the collinearity equations, and a focal-plane camera maps it to the pixel holding that focal-plane position, given pixel pitch, pixel counts and optional axis flips about the array's centre, in any supported length and angle units. "
     "Points along one ray from the camera share a pixel, moving camera and points together leaves pixels unchanged, and the pixel field of view matches pitch over focal length.",
     ["inputs", "configurations"],
     "all camera poses, focal lengths, pitches, image sizes, unit choices, flips and world points in front of the camera",
     "Tests check the nadir centre pixel of one camera; flips, units, non-square arrays and rotated poses are not covered.",
     [PC + "pinhole_camera.py", PC + "ideal_pinhole_fpa_local_utm_point_calc.py", PC + "fixtured_camera.py"],
     [("PinholeCamera.world_to_image_plane", "pinhole_camera.py"), ("IdealPinholeFpaLocalUtmPointCalc", "ideal_pinhole_fpa_local_utm_point_calc.py")])

prop("C10", "Lens-distorted frame cameras apply the stated distortion model",
     "An OpenCV-model camera and a Pix4D-model camera map a world point to the pixel given by rotating into the camera frame, dividing by depth, applying the radial and tangential distortion polynomial with each coefficient in its own term, and scaling by focal length about the principal point. "
     "With all coefficients zero this is the ideal camera up to each model's fixed axis flips.",
     ["inputs", "configurations"],
     "all poses, intrinsics, distortion coefficients and points in front of the camera",
     "No test builds a distorted camera.",
     [PC + "opencv_point_calc.py", PC + "pix4d_point_calc.py"],
     [("OpenCVPointCalc._lon_lat_alt_to_pixel_x_y_native", "opencv_point_calc.py"), ("Pix4dPointCalc", "pix4d_point_calc.py")])

prop("C11", "Rational-polynomial cameras evaluate the RPC00B model",
     "A rational-polynomial camera maps (longitude, latitude, height) to (sample, line) by the ratio of the two 20-term cubic polynomials in RPC00B term order over normalised coordinates, denormalised by its offsets and scales, with the library's fixed half-pixel convention; coefficients given as text, as lists or in a file give the same camera.",
     ["inputs", "configurations"],
     "all coefficient sets, offsets, scales and ground points with non-vanishing denominators",
     "No test evaluates a rational polynomial camera.",
     [PC + "rpc_point_calc.py"],
     [("RPCPointCalc.compute_p and native transform", "rpc_point_calc.py")])

prop("C12", "A multi-band sensor answers each band with that band's own calculator",
     "A sensor assembled from per-band calculators converts world points to pixels for band k exactly as calculator k alone does, and pixels to world points likewise (exactly for calculators with a direct inverse, within the pixel tolerance for iteratively solved ones); a sensor built from separate per-band cameras reports that its bands are not coregistered.",
     ["configurations", "inputs", "histories"],
     "all band orders, counts and calculator kinds; all points",
     "Only imported by other code; no test assembles a multi-band sensor.",
     [PC + "earth_overhead_sensor_model.py", R + "image_objects/earth_overhead/micasense/micasense_image_factory.py"],
     [("EarthOverheadSensorModel dispatch by band", "earth_overhead_sensor_model.py")])

prop("C13", "Geolocation-grid images return their stored positions",
     "An image with per-pixel longitude, latitude and altitude grids returns exactly the stored longitude and latitude at whole pixels, and maps each stored position back to its pixel (grids of at least six distinct positions, to a hundredth of a pixel); building such an image keeps the bands, size and positions it was given, and a single altitude stands for every pixel.",
     ["inputs"],
     "all grids with distinct positions, band counts and shapes",
     "No test constructs an IGM image.",
     [PC + "igm_point_calc.py", R + "image_objects/earth_overhead/igm/igm_image.py", R + "photogrammetry/ortho_tools.py"],
     [("IGMPointCalc", "igm_point_calc.py"), ("IgmImage.from_params", "igm_image.py"), ("create_igm_image", "ortho_tools.py")])

prop("C14", "Elevation models return the sampled or interpolated terrain height",
     "A raster elevation model returns, at a point inside it, the height of the containing cell (nearest) or the bilinear blend of the four surrounding samples (bilinear), elementwise and in the shape of the input, after reprojecting the query points; a bilinear value equals the sample at a sample point and never leaves the range of its four samples. "
     "Sample points lie at whole pixel coordinates. A constant model returns its height everywhere, cells of the value last named as missing read as not-a-number, in a raster loaded later too, and the highest and lowest altitudes are the extremes of the cells that hold data. "
     "Converting a raster model to ellipsoid heights adds the geoid's undulation at every cell that holds data and no other, converting it back takes it off again, and a model made directly states its raster's projection.",
     ["inputs", "histories"],
     "all rasters, geotransforms, sample types, query points and interpolation modes",
     "No test queries a raster elevation model.",
     [R + "photogrammetry/dem/geotiff_dem.py", R + "photogrammetry/dem/constant_elevation_dem.py", R + "photogrammetry/dem/abstract_dem.py", R + "photogrammetry/dem/dem_factory.py"],
     [("GeotiffDem.get_elevations, remove_nodata_values, set_interpolation", "geotiff_dem.py"), ("ConstantElevationDem", "constant_elevation_dem.py")])

prop("C15", "Ray casting finds the first terrain intersection along the line of sight",
     "Casting a pixel onto terrain returns a point on that pixel's line of sight whose altitude is the terrain height there, and it is the intersection nearest the sensor to within the sampling distance (terrain below the sensor and within the highest and lowest altitudes the model states); over constant terrain it is the pixel's position at that altitude. "
     "Results keep the input's shape and the order of the pixels.",
     ["inputs", "configurations"],
     "all camera poses, pixels and terrains (constant, planar, stepped), sampling distances",
     "No test casts a ray.",
     [PC + "abstract_earth_overhead_point_calc.py", R + "photogrammetry/ortho_tools.py"],
     [("_pixel_x_y_to_lon_lat_ray_caster_native", "abstract_earth_overhead_point_calc.py"), ("get_pixel_lon_lats", "ortho_tools.py")])

prop("C16", "Pixels are reported obstructed exactly when terrain covers their line of sight",
     "For pixels with given ground positions, a pixel is reported obstructed by a terrain model when the terrain rises above the straight line from the ground position to the sensor for longer than one resolution step, and is not reported when that line stays clear of the terrain. "
     "Flags keep the order and shape of the pixels.",
     ["inputs", "configurations"],
     "all camera poses, pixels, ground positions, terrains and resolutions",
     "No test computes an obstruction mask.",
     [R + "photogrammetry/ortho_tools.py", R + "utils/photogrammetry_utils.py", PC + "abstract_earth_overhead_point_calc.py"],
     [("are_pixels_obstructed_by_dem", "ortho_tools.py")])

prop("C17", "Orthorectified images hold, at each ground cell, the sensor's pixel there",
     "Each cell of an orthorectified image, at the position its own georeferencing gives for the cell centre, holds the source image's value at the sensor pixel of that ground point and terrain height, for every requested band in the order requested, or the nodata value where the point falls outside the source image (cells within one pixel of the source's edge may hold either). "
     "The output has the requested size, spans exactly the requested ground rectangle, keeps the source sample type, records the nodata value, and does not depend on whether the source pixels were in memory or on disk.",
     ["inputs", "configurations"],
     "all source images and sensors (coregistered or per-band), ground rectangles, output sizes, projections, terrain and band lists",
     "No test makes an orthorectified image.",
     [R + "photogrammetry/ortho_tools.py", R + "utils/photogrammetry_utils.py"],
     [("create_ortho_gtiff_image_world_to_sensor", "ortho_tools.py"), ("create_ground_grid, world_poly_to_geo_t", "photogrammetry_utils.py")])

prop("C18", "Image ground extents enclose exactly the imaged ground",
     "The ground extent computed for an image over flat terrain is the outline of the ground positions of its border pixels, so it contains every imaged ground point and, for an undistorted camera, no point imaged outside the frame, up to a fraction of a pixel; for a sensor with several bands it covers them all. "
     "A default full orthorectification covers that extent at the requested ground sample distance.",
     ["inputs", "configurations"],
     "all frame sensor poses over flat terrain, image sizes, ground sample distances",
     "No test computes an extent.",
     [R + "photogrammetry/ortho_tools.py"],
     [("get_extent, create_full_ortho_gtiff_image", "ortho_tools.py"), ("get_nx_ny_pixels_in_extent", "photogrammetry_utils.py")])

prop("C19", "Image chips tile the image and hold the pixels at their reported positions",
     "Chips cut on a grid have the requested size, lie inside the image, and each holds exactly the image's pixels (for the requested bands) at its reported upper-left position; together they cover every pixel for any image at least as large as a chip and any overlap smaller than the chip. "
     "Neighbouring chips share at least the requested overlap. Chips cut at given upper-left positions or around given centres lie there, moved only as far as needed to stay inside the image, and chips written to disk read back unchanged, one file per chip.",
     ["inputs"],
     "all image sizes, band lists, chip sizes and overlaps, centre positions",
     "No test cuts chips.",
     [R + "utils/image_utils/image_chipper.py"],
     [("chip_entire_image_to_memory, chip_images_by_pixel_upper_lefts, chip_images_by_pixel_centers", "image_chipper.py")])

prop("C20", "A detection mosaic shows the highest score covering each pixel",
     "The detection image assembled from chip scores spans all chips, and each pixel holds the highest score among the chips covering it, zero where none does, independent of the order in which the chips are listed.",
     ["inputs", "schedules"],
     "all chip positions, sizes (also non-square), scores and listing orders",
     "No test builds a detection image.",
     [R + "utils/image_utils/image_utils.py"],
     [("create_detection_image_from_scores", "image_utils.py")])

prop("C21", "Navigation queries interpolate the recorded trajectory at the requested time",
     "At a recorded time a navigation source returns the recorded position and attitude, and between two records the linear interpolation of them, for single times and arrays of times; a time outside the recording gives no result rather than an extrapolation. "
     "Loading a file keeps every well-formed record with its own values; world positions are the recorded coordinates, in the projection given when loading.",
     ["inputs", "histories"],
     "all record sets, query times and file contents",
     "The navigation modules cannot even be imported by the tests (missing reader dependency).",
     [R + "photogrammetry/nav/abstract_nav.py", R + "photogrammetry/nav/applanix_eo_nav.py", R + "photogrammetry/nav/applanix_sbet_nav.py", R + "photogrammetry/nav/nav_factory.py"],
     [("AbstractNav query shapes", "abstract_nav.py"), ("ApplanixEONav / ApplanixSBETNav interpolation", "applanix_*_nav.py")])

prop("C22", "UTC and GPS time conversions agree with the leap-second table and invert",
     "Converting a UTC time to GPS time adds exactly the leap seconds in force at that instant and converting back returns the same UTC time, for every instant since 1981 including those next to a leap second; GPS week and seconds of week count from the GPS epoch, independent of the machine's time zone.",
     ["inputs", "configurations"],
     "all instants from 1981 on, all time zones of the host",
     "No test converts times.",
     [R + "utils/time_utils.py"],
     [("leap second table and conversions", "time_utils.py")])

prop("C23", "Masked statistics use exactly the unmasked pixels",
     "The mean and covariance of an image cube or of flattened pixels, with an optional mask, are the exact sample statistics over the unmasked pixels only, unaffected by the values of masked pixels; flattening a cube keeps each pixel's spectrum together and unflattening restores it.",
     ["inputs"],
     "all cubes, masks and band counts",
     "Tests use a few random cubes and compare to the same formulas; none perturbs masked pixels or checks exact values.",
     [R + "utils/spectral_utils.py", R + "spectral/spectral_image_processing_1d.py", R + "spectral/spectral_image_processing_2d.py"],
     [("compute_image_cube_spectral_mean / covariance", "spectral_image_processing_*.py")])

prop("C24", "Spectral detectors compute their defining statistics at every pixel",
     "For well-conditioned statistics, anomaly (RX), adaptive-cosine (ACE), spectral-angle (SAM) and covariance-equalisation results are, at each pixel, the defining statistic of that pixel's spectrum with the given or computed mean and covariance over unmasked pixels, for integer and floating samples; the image form equals the flattened form pixel by pixel. "
     "SAM ignores positive scaling of a spectrum and ACE lies between zero and one, one for the target itself. Principal components are uncorrelated, in order of decreasing variance, and keep the distances between spectra. No detector changes the arrays it is given.",
     ["inputs"],
     "all cubes, targets, masks, background statistics",
     "Tests check a few random cubes against loosely related values.",
     [R + "spectral/spectral_image_processing_1d.py", R + "spectral/spectral_image_processing_2d.py"],
     [("rx_anomaly_detector, ace, sam, covariance equalization", "spectral_image_processing_1d.py")])

prop("C25", "Simulated pictures show the ground each pixel sees",
     "A picture simulated for a camera body (focal length, pixel pitches, boresight turned in the order given) at a platform pose has at each pixel the source's value where that pixel's line of sight meets the ground plane, for every unit of length and angle, any source georeference and any world projection the camera is asked to live in. "
     "Every picture of a history of poses belongs to its own pose and carries the camera's size, and the picture's own coordinate model images ground points where they were seen. With no boresight it is the platform's camera.",
     ["inputs", "histories"],
     "all bodies, boresights, axis orders, units, poses, georeferenced sources and sequences of pictures",
     "No test simulates a picture and compares a pixel.",
     [R + "utils/physical_camera_simulator.py", R + "image_objects/earth_overhead/earth_overhead_point_calculators/fpa_distortion_mapped_point_calc.py", R + "image_objects/earth_overhead/earth_overhead_point_calculators/pinhole_camera.py"],
     [("PhysicalCameraSimulator.create_overhead_image_object", "physical_camera_simulator.py")])

prop("C26", "A spectrum keeps its own data, marks nodata and resamples by band response",
     "A spectrum returns the wavelengths, widths and values it was last given, with their units when asked; a value equal to the nodata value is reported as not-a-number whatever the sample type, without changing the stored data, and neither overwriting returned values nor changing a copy changes the spectrum. Resampling gives, for each requested band, the average of the spectrum weighted by that band's response interpolated to the spectrum's wavelengths.",
     ["histories", "inputs"],
     "all sequences of set/get/copy/resample calls and all spectra",
     "No test uses spectrum objects.",
     [R + "spectral/spectrum.py"],
     [("Spectrum setters/getters/resample", "spectrum.py")],
     state=[("metadata, spectral values, wavelengths", "the last set", "spectrum.py")])

prop("C27", "Spectral library readers return the wavelengths and values in the file",
     "Each spectral-library reader (delimited text with any columns and header length, field spectrometer, ENVI ASCII plot, USGS) returns the spectrum in the file, with every wavelength and value in order, the right units and scale, and nothing from its header lines.",
     ["inputs"],
     "all well-formed library files of each format",
     "No test reads a spectral library.",
     [R + "spectral/spectrum_factories/"],
     [("CSV, SVC, ENVI ASCII and USGS factories", "spectrum_factories/*")])

prop("C28", "Pix4D parameter files are read into the right camera parameters",
     "Reading Pix4D parameter files returns, for every image listed, its own size, camera matrix, distortion, position and rotation, in file order and including the last entry whether or not the file ends with a blank line; the camera built from them uses exactly these values.",
     ["inputs"],
     "all parameter files with any number of images and any values",
     "No test reads Pix4D files.",
     [R + "utils/pix4d_utils.py", PC + "pix4d_point_calc.py"],
     [("pix4d_utils readers, Pix4dPointCalc.init_from_params", "pix4d_utils.py")])

prop("C29", "Colour mapping, normalisation and blending follow their linear definitions",
     "A colour-mapped grey image has at each pixel the palette colour interpolated at its position between the clip limits, the end colours beyond them, and the same colour for equal values; normalisation maps the minimum and maximum to the requested ends and is linear between, and blending is the weighted mean. Pixel grids, uniform images and flattening of bands hold exactly the positions and values they describe.",
     ["inputs"],
     "all images, palettes, bin counts, clip limits",
     "No test colours an image.",
     [R + "utils/image_utils/image_utils.py"],
     [("apply_colormap_to_grayscale_image, normalize_grayscale_image, blend_images", "image_utils.py")])

prop("C30", "File and text utilities are exact over every input",
     "Text lists and tables written to a file read back unchanged; listing files returns exactly the matching files, text cleanup is exact, and array helpers return what they describe for every input.",
     ["inputs"],
     "all texts, tables, directory trees and arrays",
     "No test uses these helpers.",
     [R + "utils/file_utils.py", R + "utils/csv_utils.py", R + "utils/string_utils.py", R + "utils/numpy_and_array_utils.py"],
     [("file_utils, csv_utils, string_utils", "resippy/utils")])

prop("C31", "Every image kind keeps file and memory apart and tells what its files say",
     "An image object of a frame camera, a stereo pair, a five-camera or a geolocation image gives exactly the pixels of its files when it reads them and of its data when it holds them; changing, loading or dropping data of one object changes nothing else, and size, bands, sample type, nodata and name agree with the files. Five-camera files are assembled in the order of their band numbers, and the time and place in their headers are the ones written there, to the last digit, with the hemisphere's sign.",
     ["inputs", "histories"],
     "all images, file sets, header times and positions, histories of reading, setting, loading and dropping",
     "No test opens these images.",
     [R + "image_objects/earth_overhead/physical_camera", R + "image_objects/earth_overhead/micasense", R + "image_objects/earth_overhead/igm", R + "image_objects/image_factory.py"],
     [("PhysicalCameraImage, MicasenseImage, IgmImage, ImageFactory", "resippy/image_objects")])

prop("C32", "Measurements read off images count exactly the pixels they are about",
     "Pixel values measured around ground points are, per band, the mean of the pixels holding data in the window of the asked size on the nearest pixel, as far as the image reaches, and nothing where it does not reach; the agreement of two pictures is their binned mutual information; masks give the places of each colour asked for; warping a picture gives its value at each position and the nodata value beyond it; opacity bands, resized pictures and reported dimensions are exact.",
     ["inputs"],
     "all images, sensors, ground points, window sizes, nodata values, bin counts, colours and positions",
     "No test measures an image.",
     [R + "photogrammetry/ortho_tools.py", R + "utils/image_utils", R + "utils/spectral_utils.py"],
     [("get_pixel_values, mask_image", "ortho_tools.py"), ("MMI.image_mmi, rgb_image_point_mask_to_pixel_locations, grid_warp_image_band, resize_image", "image_utils")])

prop("C33", "Reference-system helpers choose, read and apply the right system",
     "The local projection of a position is its UTM zone, with the wider zones over Norway and Svalbard and the hemisphere's origin; a projection or spatial reference made from a text is the one the text describes; a reprojected geometry has the same kind, parts and vertex order with every vertex at its place in the new system and leaves the original alone; points shifted by metres move by those metres on the web-mercator plane; bounds become the rectangle they bound, and a picture cut out along its cells with GDAL keeps the cells' values, place, type and nodata.",
     ["inputs"],
     "all positions, systems, geometries, shifts and cut-outs",
     "Tests use single points.",
     [R + "utils/proj_utils.py", R + "utils/photogrammetry_utils.py", R + "utils/geom_utils.py", R + "image_objects/earth_overhead/geotiff/geotiff_image.py"],
     [("decimal_degrees_to_local_utm_proj, wkt_to_proj, wkt_to_osr_spatialref", "proj_utils.py"), ("reproject_geometry, shift_points_by_meters", "photogrammetry_utils.py"), ("gdalwarp_geotiff_image", "geotiff_image.py")])

prop("C34", "Chip scores stay with their chips and classes; training obeys its settings",
     "Scoring an image shows the network every chip of the overlapping grid exactly once, in the order of the reported positions, without the opacity band, at the size asked for and normalised as asked; the scores returned are the network's answers chip by chip, or the answers for one named class, also when there is one chip or one class only. Freezing and releasing act on every layer; a classifier put on top gives one probability per class; training fits the network asked for once, compiled and with the weights asked for loaded, on the training pictures with the validation pictures held apart, and its labels file lists the classes in the order of the network's outputs.",
     ["inputs", "histories"],
     "all images, chip grids, label lists and training sessions",
     "No test imports this code.",
     [R + "image_recognition/neural_net_model_scoring/keras_image_scoring.py", R + "image_recognition/neural_net_model_training/keras_model_training.py"],
     [("chip_and_score_image", "keras_image_scoring.py"), ("freeze_model_layers, create_final_dense_softmax_layer, train_model, setup_train_and_val_image_generators", "keras_model_training.py")])

prop("C35", "Answers depend only on the object's state and the question asked",
     "What a sensor model, terrain model, trajectory, camera simulator, image, spectrum or processing function answers depends on the state last given to that object, the question and its arguments, and on nothing else: not on what was asked before, of this or another object, not on how often, and not on what the asker did with arguments and answers since. The answer is that of a process in which nothing was asked before. Questions leave their arguments as they were; giving an object or a file another state leaves the other objects as they were and is seen by every later answer.",
     ["histories", "inputs"],
     "all histories of making, moving and asking two objects of twenty one kinds with two states, and every question with two sets of arguments",
     "Tests ask each object once, in a state that never changes; remembered answers, shared stores and arguments worked on in place need a second question.",
     [R + "photogrammetry/", R + "image_objects/", R + "spectral/", R + "utils/"],
     [("every public question of harness/askers.py", "resippy/")])

prop("C36", "Many items asked at once are answered like each alone",
     "A list, array or two-dimensional array of items put to a sensor model, terrain model, trajectory, camera simulator's plane, colour or warping function, chipper, detector, spectrum, text or image writer is answered item by item: as many answers as items, in their order and shape, each the one that item gets alone, however many items there are. Statistics of all items together are those of the items counted once, so that they do not change when every item is repeated equally often.",
     ["inputs"],
     "up to 140 000 items at once (fewer where answers are slow), numbers of items around multiples of the usual sizes of blocks and beyond 16 bits, for 51 questions",
     "Tests put a handful of items; work in blocks, narrow counters and preallocated results only go wrong beyond a size.",
     [R + "photogrammetry/", R + "image_objects/", R + "spectral/", R + "utils/"],
     [("every question of harness/bulk.py", "resippy/")])

prop("C37", "What cannot be answered is refused and leaves no trace",
     "Options come from closed vocabularies (interleaves, interpolations, rotation orders, kinds of file extensions, ENVI data types), and files, bands, header entries, camera numbers and image names are there or not. A request whose option is in the vocabulary and whose inputs are there is answered. Any other request is refused: it raises an error, or brings nothing, never a value that could be taken for an answer; and it leaves every file and every image held in memory as it was, so that a failed write destroys nothing written before and what is asked next is answered as if the refused request had not been made.",
     ["inputs", "histories"],
     "options near the documented ones, files missing, cut, grown or of another kind, headers altered entry by entry, bands on both sides of the range, Pix4D projects with a part missing; histories of three requests over two files",
     "Tests ask for what exists; a request that slips through gives a plausible wrong answer, or leaves a half written file behind.",
     [R + "utils/", R + "image_objects/", R + "photogrammetry/dem/", R + "spectral/spectrum_factories/"],
     [("write_envi_image, construct_image_cube_from_raw_data", "envi_utils.py"), ("grid_warp_image_band", "image_utils.py"), ("create_M_matrix", "photogrammetry_utils.py"), ("from_gtiff_file", "dem_factory.py"),
      ("get_all_files_in_dir", "file_utils.py"), ("make_master_dict", "pix4d_utils.py")])


def main():
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(out, "w") as f:
        for p in P:
            f.write(json.dumps(p) + "\n")


if __name__ == "__main__":
    main()
