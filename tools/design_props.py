P={}
P["C01"]=("`ImageStore.tla`: a GeoTIFF file is a record of pixels, type, geotransform, reference and nodata; write and open are inverse; an image put on other ground (`Reref`) is written there.",
 "with C02 (store model).",
 "chains of write, open, rewrite over 12 sample types, 6 reference systems, 4 kinds of geotransform, nodata fractional, negative, NaN, none; exact comparison.",
 "reference systems are compared by where they place three positions; GDAL is trusted.",
 "one test writes one float image; the combinations of type, nodata, georeference and source (loaded, disk, same file) are the input space.")
P["C02"]=("`ImageStore.tla`: objects with optional data over files; set, set band, write, reopen, read; disk reads show the last write, memory shows the last set.",
 "all behaviours of 5 mutators over 2 objects, 2 files, 2 bands (7 properties), random simulation to 14.",
 "all emitted behaviours replayed (seeded sample in quick) with observation after every step.",
 "reads through a handle whose file was rewritten after opening; arrays shared by the caller.",
 "a history property: failures need particular orders of loads, sets and writes.")
P["C03"]=("`Envi.tla`: place of (line, sample, band) for bil/bip/bsq; header grammar as a scanner over character codes with its own numeral reader; place of every byte of every sample for both byte orders and any offset.",
 "every shape to 3x3x3 (5 thorough) per interleave: bijection, reads back, every byte once for each type, order and offset; every header of two entries in every style parses into its entries.",
 "emitted headers replayed; random headers; histories of images over 11 sample types, bit by bit, file bytes included; reader and image object.",
 "comments, repeated keys.",
 "no test touches the ENVI code; parsing is over all texts.")
P["C04"]=("`Camera.tla` affine georeference and inverse; extents from corners.",
 "exact grid of geotransforms: the two maps undo each other.",
 "rotated, sheared, south-up and tiny-pixel geotransforms, three kinds of calculators, extents, reprojected calls.",
 "projections themselves are pyproj's.", "rotated and sheared grids and far away pixels do not occur in tests.")
P["C05"]=("`Shape.tla`: a call on arrays is the call at each element, in the given shape.",
 "flatten/unflatten of every small shape.", "seven kinds of calculators; scalars, 1-d, 2-d, one-row, one-column, altitude scalar/array/default, other projection.",
 "altitude arrays of another shape than the coordinates.", "over all shapes and all sensors.")
P["C06"]=("`Newton.tla`: step of the two-variable solver; oracle is the exact forward camera.",
 "one step is exact for affine sensors whatever the axes; vertical pinholes are affine at an altitude.",
 "frame cameras (ideal and distorted), every returned position is imaged exactly and compared with the requested pixel.",
 "tilt to about 35 degrees; RPC sensors (see oddities).", "convergence over all poses and pixels, not the sampled ones.")
P["C07"]=("`Rotation.tla`: rotations from half-angle tangents, six orders, recovery.", "exact grid of angles, all orders: orthogonal, determinant one, closed form, recoverable.",
 "the grid replayed and dense random angles with units.", "recovery at vertical pitch.", "six orders times all angles.")
P["C08"]=("`Fixture.tla`: state is the last attitude, position, boresight, lever arm; pose is their rigid composition.", "all orders of 5 setter calls.",
 "replayed with units varied, and two fixtures interleaved; position and matrix queried after every step.", "queries before position and attitude are set.", "order of setter calls is a history.")
P["C09"]=("`Camera.tla`: exact collinearity (rational rotation, focal length, pitch, flips); UTM zone of a position.", "exact grid of poses: rays share pixels, translation, optical axis, flips.",
 "grid and random cameras, points, units, flips, fixture cameras, world projections.", "Norway/Svalbard zone exceptions.", "over all poses.")
P["C10"]=("`Camera.tla`: Brown distortion polynomials (radial 1..3, tangential) on normalised coordinates, for Pix4D and generic cameras.", "radial distortion keeps the direction; zero coefficients are the ideal camera.",
 "random poses, intrinsics and coefficients, also one at a time.", "points far outside the field of view.", "a term only shows when its coefficient is isolated.")
P["C11"]=("`Camera.tla` RPC00B: the 20 monomials, offsets and scales.", "terms are the 20 monomials of degree at most 3; denormalisation inverts.",
 "coefficients as text, list, array, from TIFF tags and RPB files; exact evaluation.", "vanishing denominators.", "a wrong monomial needs its coefficient to be large.")
P["C12"]=("`SensorModel.tla`: map from band to calculator; assembly histories.", "all histories of 3 assemblies over 3 calculators.",
 "replayed; every query compared with the band's calculator and with the exact model; a projection given to the sensor reaches every member.", "bands that do not exist.", "a history property.")
P["C13"]=("`Igm.tla`: grid lookups; inverse-distance weighting.", "a stored pixel outweighs its neighbours; means stay inside.",
 "regular, sheared and scattered grids, altitudes scalar and gridded, files.", "fractional pixels; coincident positions.", "over all grids.")
P["C14"]=("`Dem.tla`, `Terrain.tla`: raster store (missing cells, interpolation mode, geoid offset), nearest and bilinear heights.", "all 3x2 rasters over two heights with every order of marking, switching and converting to and from ellipsoid heights: undone conversions, missing kept (larger in `Dem_MC_Deep`).",
 "replayed; random rasters, sample types, geotransforms, projections, files; shapes of queries.", "points outside the raster.", "histories of set/remove/interpolate with queries.")
P["C15"]=("`RayCast.tla`: sampling march along the ray, first crossing longer than a step.", "every 5x2 raster of three heights, four rays, two steps: hit on the ray, on terrain, first.",
 "random cameras and rough terrains; each returned point is checked on its line of sight, on the terrain, and not behind an earlier long crossing.", "crossings shorter than the step; rays from below the terrain.", "first among several crossings.")
P["C16"]=("`RayCast.tla`: stretch of the line of sight under terrain.", "sampling sees every stretch longer than a step.", "walls and rough terrains, flag per point.", "near-threshold stretches.", "rare configurations of terrain and pose.")
P["C17"]=("`Ortho.tla`: ground grid, resampling of order 0 and 1, nodata, bands; `Spline.tla`: cardinal splines of order 2 to 5; composes Camera and Terrain.", "every small grid over a 4x3 source under four georeferences: tiling, identity on the source's own grid.",
 "replayed on GeoTIFF sources; random frame cameras, terrains, projections, band lists, memory/disk sources; every cell compared.", "cells within a pixel of the source's edge; splines on sources that are not flat beyond a few samples.", "all cells of all products; tests compare none.")
P["C18"]=("`Ortho.tla` outlines.", "the outline of a frame holds exactly the imaged points.", "outlines of cameras point by point; full orthorectifications with their sizes.", "a twentieth of a pixel at the border; distorted cameras.", "for every ground point.")
P["C19"]=("`Chips.tla`: grid cutting along an axis, chips at positions and centres.", "every axis length to 9, chip length and overlap: inside, no gaps, whole cover, overlaps.",
 "replayed; random images; chip files read back.", "chips larger than the image.", "divisibility cases of size, chip and overlap.")
P["C20"]=("`Chips.tla` painting.", "3 chips in every position, score and tie order.", "replayed; random mosaics.", "non-finite scores.", "order of overlapping chips.")
P["C21"]=("`Nav.tla`: recording of lines (good or malformed), queries interpolate.", "every recording of up to three lines.", "replayed; text and binary recordings, reloads, queries.", "headings across north.", "every file history and time.")
P["C22"]=("`Clock.tla`: TAI count, leap-second table, GPS weeks.", "half-second clock over every insertion and week boundary.", "replayed under six host time zones; random instants.", "instants within an inserted second; before 1981.", "depends on host time zone and instants near insertions.")
P["C23"]=("`Stats.tla`: exact mean, covariance, inverse, over unmasked pixels.", "every 3-pixel 2-band cube over 3 values with every mask.", "replayed; masked pixels carry anything, NaN included.", "fewer than two unmasked pixels.", "independence from masked values is a relation between runs.")
P["C24"]=("`Stats.tla`: RX, ACE, SAM, covariance equalisation, PCA.", "RX total, ACE bounds, scale invariance of SAM.", "replayed; integer types included.", "ill-conditioned covariances.", "at every pixel, all types.")
P["C25"]=("`Simulator.tla`: body (boresight, lens), pose, line of sight, source as an affine field; composes Camera and Rotation.", "bodies in every axis order with two poses over exact angles: ground points imaged at their pixels, no boresight is the platform's camera.",
 "replayed and random: several pictures per simulator, units, world projections; every pixel away from the source's border compared.", "splines on sources that are not planes; 14 samples at the source's border.", "composition of two rotations, units, projections and history at every pixel.")
P["C26"]=("`Spectrum.tla`: spectrum as own copies; nodata; trapezoid resampling.", "every history of three steps.", "replayed; longer random histories.", "resampling with missing values.", "aliasing needs a history.")
P["C27"]=("`Library.tla`: lines of the four formats.", "files built line by line.", "replayed; random files, line ends, number formats, relative names.", "trailing blank lines.", "over all files.")
P["C28"]=("`PixFiles.tla`: three files in any order.", "three images, two cameras in every order with blank lines.", "replayed; random projects; cameras built from them pixel by pixel.", "repeated image names.", "order of entries.")
P["C29"]=("`Colormap.tla`: linear and stepped maps, normalisation, blending, pixel grids.", "palettes, bins, limits and values on a grid.", "replayed; random images of eight sample types.", "constant images, NaN.", "over all values at bin borders.")
P["C30"]=("`Files.tla`: texts as codes, folders, lists, tables.", "texts of four characters, folders of eight entries, three written lists.", "replayed; random ones.", "line ends within entries.", "over all texts.")
P["C31"]=("`Families.tla`: objects of four kinds over files: files, data held, what each read returns; `Clock.tla` for header times.", "histories over two objects sharing files: reading changes nothing, dropping returns to the file.",
 "replayed; random histories over sample types; headers written tag by tag with fractional degrees, minutes and seconds.", "single-row TIFFs; the file band of a loaded frame-camera image.", "aliasing and stale data need histories; headers over all values.")
P["C32"]=("`Measure.tla`: windows, mutual information over bins, places of colours, warping; `Spline.tla`; composes Camera and Ortho.", "windows of 1 to 4 pixels around and beyond 3x2 pictures with missing pixels; agreement of 2x2 pictures: symmetry, self-agreement, order, stretch; cardinal splines walked past in eighths.",
 "replayed; random sensors (one or per band), disk images, points in and around the frame; pictures with known bins; colour masks, warps, resizes, opacity bands.", "points on half pixels; values on a bin border; interpolation beside the source's edge; constant pictures compared.", "every position relative to the frame, every window, every nodata.")
P["C33"]=("`Crs.tla`, `Trig.tla`: UTM zones with their exceptions, web and transverse Mercator (Krueger to n^6) over rationals.", "a position walks over the globe: zones tile it, the projection is symmetric, conformal and its quarter meridian has the known length.",
 "replayed; random positions (half over Norway and Svalbard), texts of systems, geometries of every kind with holes, shifts, GDAL cut-outs of memory and disk images.", "ellipsoids other than WGS 84; vertical datums by EPSG code (need grids that are not here).", "zones and hemispheres have many borders; vertex order and holes; an independent projection.")
P["C34"]=("`Scoring.tla`: chips shown one after the other, answers kept in their order, labels by class index; a training session of freezing, releasing, building, loading, compiling and fitting.", "grids of axes up to 7 with both class orders: every chip its answer, the named class; all sessions of three steps: what is fitted is compiled, layers stay as set.",
 "replayed on stand-ins for keras that record what is done to them; random images, chip and shown sizes, overlaps, normalisations, label lists; folders of pictures.", "learning itself (keras is not installed); chips of a single value under min-max; the values of resized chips beyond their range.", "scores have to stay with their chips for every grid and label list; sessions are histories.")
P["C35"]=("`Answers.tla`: objects, the state last given to each, and the right answer as a function of state, question and arguments; next to it eight faulty ways of answering (remembered past a move, shared between objects, remembered whatever the arguments or the question, worn by asking, leaking to other objects, settled by the first question, echoing the last).",
"all histories of five steps over two objects, two questions and two sets of arguments (67 638 states): an answer is right or a named fault gives itself away; a first answer is never taken for a fault. Emitted are the histories that give away at least six faults, and sampled histories of fourteen steps that give away seven.",
"21 kinds of objects (all sensor models, fixtures, terrain, trajectories, cubes, pictures, spectra, orthorectification, simulator, clock, map projections, files written again), every question with two sets of arguments; the reference answers come from forked processes in which nothing was asked; half of the histories fill the same argument arrays again, and more than half overwrite answers and arguments after use. An answer has to be, to 1e-9, that of the fresh process for the state the specification says the object holds, and arguments have to be as they were.",
"answers beyond 24 numbers of an array; questions not listed in harness/askers.py; several threads.",
"A remembered value needs a particular sequence to show; unit tests make an object, ask once and drop it.")
P["C36"]=("`Batches.tla`: n items worked through in blocks of b, and seven ways in which that goes wrong (the last partial block left out or answered by the one before, the first item of a block taken from the block before, every block answered by the first, blocks in another order, positions counted in too narrow numbers or only up to the block), each as a function from positions to the position whose item answers.",
"up to 24 items, blocks of 2 to 6: whatever fault answers any position wrongly does so at one of eleven probes; two blocks and one item give away all seven. Emitted are the numbers of items relative to the block with the faults they give away.",
"53 questions (all sensor models both ways and over terrain, the ground of pixels on rising terrain, stored positions, terrain, trajectories, colours, blends, opacity, warps, chips, tiles, detections, detectors, statistics, spectra, libraries, text, headers, image files): each of seven items alone, then emitted numbers of items with the blocks 256, 1000, 1024, 4096, 10000, 32768 and 65536, as lists, rows, columns and grids; the probes, and where the answers differ most, have to be the answers alone; statistics have to be those of one copy of the items.",
"other block sizes unless the answers shift at the probes; more than 140 000 items.",
"Tests put a handful of items at once.")
P["C37"]=("`Requests.tla`: which requests can be answered, as closed vocabularies and conditions on what is there, and which files each may touch.",
"all histories of three requests (48 829 states) over two files that are written, read and spoilt, with options in and out of the vocabularies: the last served write stands, what is read was written, refusals leave the disk unchanged.",
"sampled histories replayed in a scratch folder; ENVI images written in every type and then cut, grown, stripped of header entries, given other codes, sizes and interleaves; GeoTIFF, ENVI, stereo and camera images asked for bands that do not exist, opened from texts, folders and nothing, written where there is no folder; terrain, warps and rotations with near misses of their options; spectra and texts that are missing; Pix4D projects with a part missing, two-digit cameras and unknown names. Every event carries the contents of the folder and of the images in memory before and after.",
"which error is raised; bytes beyond the last whole sample; negative bands of images in memory (they count from the end, as in any array); camera number 0.",
"A test would need the failing request; here every vocabulary is tried from outside.")
