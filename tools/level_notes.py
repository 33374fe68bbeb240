TR = "TLA+/TLC: trace validation of recorded calls against the specification"
MB = "TLA+/TLC: bounded model checking, replay of specification behaviours, trace validation"
NOTES = {
 "C01": (TR, "Every recorded write/open chain over 12 sample types, 6 reference systems and 4 kinds of geotransform is judged by TLC; sampled inputs, exact comparison. Trusts GDAL and the projection of reference positions."),
 "C02": (MB, "The store model is checked exhaustively to 5 mutators; its behaviours (a seeded sample quick, all thorough) and random 14-step ones are replayed on real objects and every observation judged by TLC."),
}
NOTES.update({
 "C04": (TR, "Affine model checked on an exact grid; conversions, round trips, extents and reprojected calls of real calculators (rotated, sheared, south-up) judged by TLC in exact arithmetic. Projections are trusted."),
 "C05": (TR, "Seven kinds of calculators; scalars, 1-d, 2-d and degenerate shapes, altitude forms, other projections; sampled inputs, judged by TLC."),
 "C06": (TR, "Newton iteration modelled and checked to converge on an exact grid; every returned position is imaged by the specification's exact camera and compared with the requested pixel. Moderate tilt."),
 "C07": (MB, "Exact grid of angles for all orders checked exhaustively and replayed, dense random angles judged against exact rational rotations."),
 "C08": (MB, "All orders of 5 setter calls checked exhaustively; sampled quick, all thorough, replayed on real cameras with units and orders varied."),
 "C09": (MB, "Camera laws on an exact grid; grid and random cameras and points replayed, every pixel compared with the exact rational collinearity model."),
 "C10": (TR, "Exact rational distortion polynomial per point; random poses, intrinsics and coefficients (also one at a time)."),
 "C11": (TR, "Exact rational RPC00B evaluation; coefficients as text, lists, arrays and from files."),
 "C12": (MB, "All assembly histories of depth 3 checked and replayed (sampled quick); queries compared with each calculator alone and with the camera model."),
})
NOTES.update({
 "C13": (MB, "Grid lookups modelled and checked; recorded grids (regular, sheared, scattered), scalar altitudes and image builds judged exactly."),
 "C14": (MB, "Elevation store model checked over small rasters with every history of set/remove/interpolate/query replayed; random rasters, sample types, geotransforms and projections judged by exact rational bilinear/nearest terrain; geoid conversions and their undoing are actions of the model."),
 "C15": (TR, "Ray stepping modelled and checked on a grid; every point returned for random poses and terrains is checked to be on its line of sight, on the terrain and not behind an earlier long crossing, by exact camera and terrain models."),
 "C16": (TR, "Each flag is compared with the specification's account of how long the line of sight runs under the terrain; near-threshold runs are left open."),
})
NOTES.update({
 "C19": (MB, "Grid cutting modelled and checked for every axis length to 9; all its behaviours and random images, positions and centres replayed; covering, overlap, bounds and pixels decided exactly, chip files read back."),
 "C20": (MB, "Painting order modelled and checked (any listing and tie order); behaviours and random mosaics replayed and compared exactly."),
 "C23": (MB, "Exact rational statistics; masked pixels carry arbitrary values including not-a-number; every small cube of the model replayed (sampled quick)."),
 "C24": (TR, "RX, ACE, spectral angle, covariance equalisation and principal components compared with exact rational definitions (adjugate inverse, verified square-root witnesses); well-conditioned covariances only."),
})
NOTES.update({
 "C17": (MB, "Grid, sampling and outline model checked over every small grid and replayed on real GeoTIFF-georeferenced sources; random frame cameras (one or per band), terrains, projections, band lists, memory and disk sources; every cell compared with the exact camera, terrain and resampling. Orders 0 and 1; one pixel at the edge left open."),
 "C18": (MB, "Outline of a frame checked on the affine model; outlines of real cameras compared point by point with the exact camera (a twentieth of a pixel left open at the border); full orthorectifications judged as in C17, their size from the extent's metres."),
})
NOTES.update({
 "C21": (MB, "Recordings of up to three text lines, well-formed or not, checked exhaustively and replayed; random text and binary recordings (binary through a stand-in for the missing reader library), reloads, and queries judged exactly. Headings as numbers."),
 "C22": (MB, "Leap-second clock checked over every insertion and week boundary in half seconds and replayed under six host time zones; random instants judged exactly."),
})
NOTES.update({
 "C26": (MB, "Every history of three steps checked and replayed (sampled quick); random longer histories over sample types; resampling compared with exact trapezoids and linear responses."),
 "C27": (MB, "Files built line by line in each text format checked exhaustively and replayed; random files of the four formats, line endings and number formats, USGS folders, relative names."),
})
NOTES.update({
 "C28": (MB, "The three files of three images and two cameras written in every order, with blank lines, checked exhaustively and replayed; random projects compared number by number, and cameras built from them pixel by pixel with the exact model."),
 "C29": (MB, "Palettes, bins, limits and values on a grid checked and replayed; random images of eight sample types judged exactly (cut-off and step borders within a hair)."),
})
NOTES.update({
 "C30": (MB, "Texts of four characters, folders of eight entries and histories of three list calls checked exhaustively and replayed; random texts, tables, folders and lists judged exactly."),
})
NOTES.update({
 "C03": (MB, "Layout maps of every small shape proved bijective in TLC, headers of two entries in every style checked exhaustively and replayed (sampled quick); random images of eleven sample types, histories of files and random headers judged bit by bit. GDAL reads the image object's pixels."),
})
NOTES.update({
 "C25": (MB, "Camera bodies, boresights in every axis order and two poses over exact angles checked and replayed (sampled quick); random bodies, units, poses, sources and projections, several pictures each, compared pixel by pixel with the exact line of sight on sources whose samples lie on a plane."),
})
NOTES.update({
 "C31": (MB, "Histories over two objects and their files checked and replayed (sampled quick); random longer histories over sample types and nodata values; header times and positions judged exactly. Single-row images and the file band of a loaded frame-camera image left open."),
})
NOTES.update({
 "C32": (MB, "Windows on every small picture a few pixels away from a flat one checked and replayed; random sensors, images, windows and nodata values judged by the exact camera; mutual information by exact bins and a 25-digit logarithm; masks, warps, sizes judged exactly. Interpolation within a pixel beyond the source's edge left open between source and nodata."),
})
NOTES.update({
 "C33": (MB, "Zones tile the globe and the transverse Mercator series is symmetric, conformal and of known length (TLC, replayed); random positions, texts, geometries and shifts compared with the specification's own web and transverse Mercator to a hundredth of a millimetre. Other projections only against themselves."),
 "C34": (MB, "Walks over chip grids and training sessions of three steps are enumerated by TLC and replayed on stand-ins for keras; random images, sizes, normalisations and label lists."),
 "C35": (MB, "Histories of five steps over two objects are enumerated by TLC, longer ones sampled; those that give away six or seven of eight ways of answering from the past are replayed; references from fresh processes."),
 "C36": (MB, "Ways of going wrong in blocks are enumerated by TLC for up to 24 items; numbers of items that give these away are scaled to the block sizes in use and put to 51 questions, references item by item."),
 "C37": (MB, "Histories of three requests over a folder of two files are enumerated by TLC and replayed; near misses of every vocabulary, spoilt files and headers, missing parts at random; the folder's contents and the images in memory are compared before and after every request."),
})
