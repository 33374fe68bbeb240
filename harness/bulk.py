"""Things that can be asked about many items at once (C36).

kinds(r, scratch) gives Bs: many(idx) takes an array of item numbers (0..n-1) of one or two dimensions and gives the answers as an array of
that shape with the components of an answer last; what is asked for one item alone is many(np.array([i])).
"""
import os
from fractions import Fraction

import numpy as np

import checks.c21                       # noqa: F401  (a stand-in for the reader library of binary trajectories)
import dems as D
import geo
import sensors as S
from imgdrv import PROJS
from resippy.image_objects.earth_overhead.earth_overhead_point_calculators.igm_point_calc import IGMPointCalc
from resippy.image_objects.earth_overhead.earth_overhead_point_calculators.pinhole_camera import PinholeCamera
from resippy.image_objects.earth_overhead.geotiff.geotiff_image_factory import GeotiffImageFactory
from resippy.image_objects.earth_overhead.physical_camera.physical_camera_metadata import PhysicalCameraMetadata
from resippy.image_objects.image_factory import ImageFactory
from resippy.photogrammetry import ortho_tools
from resippy.photogrammetry.dem.dem_factory import DemFactory
from resippy.photogrammetry.nav.nav_factory import NavFactory
from resippy.spectral import spectral_image_processing_1d as s1
from resippy.spectral import spectral_image_processing_2d as s2
from resippy.spectral.spectrum import Spectrum
from resippy.spectral.spectrum_factories.spectrum_factory import SpectrumFactory
from resippy.utils import envi_utils, file_utils
from resippy.utils.csv_utils import CsvUtils
from resippy.utils.image_utils import image_chipper, image_utils

TILT = Fraction(1, 12)


class B:
    def __init__(self, name, n, many, limit=140000, tol="1/1000000000", total=False):
        """tol: how far (absolute) an answer may be off; total: many gives one answer about all items together."""
        self.name, self.n, self.many, self.limit, self.tol, self.total = name, n, many, limit, tol, total


def plane(idx):
    return idx if idx.ndim == 2 else idx[None, :]


def stacked(parts):
    return np.stack([np.asarray(p, dtype=float) for p in parts], axis=-1)


def picture(r, calc, npix):
    md = PhysicalCameraMetadata()
    md.set_npix_x(npix[0])
    md.set_npix_y(npix[1])
    md.set_n_bands(1)
    return ImageFactory.physical_camera.from_numpy_array_metadata_and_single_point_calc(np.zeros((npix[1], npix[0], 1)), md, calc)


def hills(r, scratch, pos):
    """A rising plane around a place."""
    f = os.path.join(scratch, "hills.tif")
    yy, xx = np.mgrid[0:60, 0:60]
    D.write_raster(f, (r.uniform(.5, 3) * xx + r.uniform(.5, 3) * yy).astype("float64"), [pos[0] - 6000, 200., 0., pos[1] + 6000, 0., -200.], 32618)
    return DemFactory.from_gtiff_file(f)


def sensors(r, scratch):
    utm = PROJS["utm18n"]()
    npix = (90, 70)
    made = [("fpa", S.fpa(r, tilt=TILT, via="local", alt=1500., proj=utm, npix=npix)), ("pix4d", S.pix4d(r, tilt=TILT, mild=True, alt=1500., proj=utm, npix=npix)),
            ("opencv", S.opencv(r, tilt=TILT, mild=True, alt=1500., npix=npix)), ("rpc", S.rpc(r, strong=False)),
            ("geot", S.geot(r, g=[4e5, 2., .25, 4e6, .5, -2.], proj=utm, npix=npix))]
    out = []
    flat = DemFactory.constant_elevation(12.)
    for name, s in made:
        c = s.calc
        if name in ("fpa", "pix4d", "opencv"):
            c.set_projection(utm)
            c.set_approximate_lon_lat_center(s.pos[0], s.pos[1])
        if name == "geot":
            pts = [[4e5 + r.uniform(-90, 90), 4e6 + r.uniform(-90, 90), 0.] for _ in range(7)]
        else:
            pts = s.points(r, 7)
        x, y, z = [np.array([float(p[j]) for p in pts]) for j in range(3)]
        other = PROJS["webmerc"]() if name == "rpc" else PROJS["wgs84"]()
        ax, ay = [np.array(v) for v in geo.reproject(c.get_projection(), other, x, y)]
        out.append(B(name + " pixels", 7, lambda i, c=c, x=x, y=y, z=z: stacked(c.lon_lat_alt_to_pixel_x_y(x[i], y[i], z[i]))))
        out.append(B(name + " pixels away", 7, lambda i, c=c, x=ax, y=ay, z=z, o=other: stacked(c.lon_lat_alt_to_pixel_x_y(x[i], y[i], z[i], world_proj=o)), tol="1/1000000"))
        px, py = [np.array([r.uniform(0, m) for _ in range(7)]) for m in npix]
        alt = np.array([r.uniform(0, 99) for _ in range(7)]) * (name != "geot")
        if name == "rpc":
            continue

        def ground(i, c=c, px=px, py=py, alt=alt, kw={}):
            lon, lat = c.pixel_x_y_alt_to_lon_lat(px[i], py[i], alt[i], **kw)
            if not kw:
                return stacked(c.lon_lat_alt_to_pixel_x_y(lon, lat, alt[i]))
            return stacked(c.lon_lat_alt_to_pixel_x_y(lon, lat, alt[i], **kw))
        out.append(B(name + " ground", 7, ground, tol="1/40"))
        out.append(B(name + " ground away", 7, lambda i, g=ground, o=PROJS["wgs84"](): g(i, kw=dict(world_proj=o)), tol="1/40"))

        def terrain(i, c=c, px=px, py=py):
            lon, lat, a = c.pixel_x_y_to_lon_lat_alt(px[i], py[i], flat)
            return stacked(list(c.lon_lat_alt_to_pixel_x_y(lon, lat, a)) + [a])
        if name in ("fpa", "geot") and not s.err:
            im, dem = picture(r, c, npix), hills(r, scratch, s.pos or [4e5, 4e6, 0])

            def land(i, c=c, im=im, dem=dem, px=px, py=py):
                lon, lat = ortho_tools.get_pixel_lon_lats(im, dem=dem, pixels_x=px[i], pixels_y=py[i])
                return stacked(c.lon_lat_alt_to_pixel_x_y(lon, lat, dem.get_elevations(lon, lat)))
            out.append(B(name + " land", 7, land, tol="1/40"))
        if name in ("fpa", "geot"):
            out.append(B(name + " terrain", 7, terrain, limit=5000, tol="1/20"))
    cam = PinholeCamera()
    cam.init_pinhole_from_coeffs(r.uniform(-9, 9), 3., 700., 2., 5., r.uniform(-170, 170), 50., omega_units="degrees", phi_units="degrees", kappa_units="degrees")
    x, y, z = [np.array([r.uniform(-99, 99) for _ in range(7)]) for _ in range(3)]
    out.append(B("pinhole", 7, lambda i: stacked(cam.world_to_image_plane(x[i], y[i], z[i]))))

    def grid(i):
        p = plane(i)
        c = IGMPointCalc(4e5 + x[p], 4e6 + y[p], z[p], utm)
        yy, xx = np.mgrid[0:p.shape[0], 0:p.shape[1]]
        return stacked(c.pixel_x_y_alt_to_lon_lat(xx.ravel(), yy.ravel(), 0)).reshape(i.shape + (2,))
    out.append(B("stored positions", 7, grid))
    return out


def lists(r, scratch):
    """Terrain and trajectories."""
    utm = PROJS["utm18n"]()
    f = os.path.join(scratch, "t.tif")
    D.write_raster(f, np.array([[r.uniform(0, 90) for _ in range(8)] for _ in range(7)]).astype("float32"), [4e5, 10., 0., 4e6, 0., -10.], 32618)
    x, y = 4e5 + np.array([r.uniform(1, 69) for _ in range(7)]), 4e6 - np.array([r.uniform(1, 59) for _ in range(7)])
    other = PROJS["wgs84"]()
    ax, ay = [np.array(v) for v in geo.reproject(utm, other, x, y)]
    out = []
    for m in ("nearest", "bilinear"):
        d = DemFactory.from_gtiff_file(f, interpolation_method=m)
        out.append(B(m + " heights", 7, lambda i, d=d: d.get_elevations(x[i], y[i])[..., None], tol="1/1000000"))
        out.append(B(m + " heights away", 7, lambda i, d=d: d.get_elevations(ax[i], ay[i], world_proj=other)[..., None], tol="1/1000" if m == "bilinear" else "1/1000000"))
    vals = np.array([[round(r.uniform(-99, 99), 3) for _ in range(8)] for _ in range(7)])

    def recorded(i):
        """As many records as items; each asked for at its own time."""
        p = os.path.join(scratch, "n.txt")
        with open(p, "w") as g:
            for k, j in enumerate(i.ravel()):
                g.write("id %d " % (1000 + k) + " ".join("%.3f" % v for v in vals[j]) + "\n")
            g.write("id %d" % (1000 + i.size) + " 0" * 8 + "\n")        # two records or more
        n = NavFactory.from_applanix_eo_file(p, proj="utm", zone=18, ellps="WGS84", datum="WGS84")
        t = (1000. + np.arange(i.size)).reshape(i.shape)
        return stacked([n.get_world_xs(t), n.get_world_ys(t), n.get_alts(t), n.get_rolls(t), n.get_pitches(t), n.get_headings(t)])
    p = os.path.join(scratch, "q.txt")
    with open(p, "w") as g:
        for k in range(9):
            g.write("id %d " % (100 + k) + " ".join("%.3f" % r.uniform(-99, 99) for _ in range(8)) + "\n")
    nav = NavFactory.from_applanix_eo_file(p, proj="utm", zone=18, ellps="WGS84", datum="WGS84")
    t = np.array([r.uniform(100, 108) for _ in range(7)])
    return out + [B("records", 7, recorded, limit=70000),
                  B("times", 7, lambda i: stacked([nav.get_world_xs(t[i]), nav.get_world_ys(t[i]), nav.get_alts(t[i]), nav.get_rolls(t[i]), nav.get_pitches(t[i]), nav.get_headings(t[i])])),
                  B("records at times", 7, lambda i: stacked([[q[k] for q in nav.get_nav_records(t[i].ravel())] for k in ("easting", "height", "kappa")]).reshape(i.shape + (3,)), limit=5000)]


def pictures(r, scratch):
    v = np.array([r.uniform(0, 99) for _ in range(7)])
    v[0], v[1] = 0, 99                              # the extremes are the clips
    w = np.array([r.uniform(0, 99) for _ in range(7)])
    pal = np.array([[0, .1, .2], [.4, .9, .1], [1, .3, 0]])
    src = np.array([[r.uniform(0, 99) for _ in range(9)] for _ in range(8)])
    gx, gy = np.array([r.uniform(0, 8) for _ in range(7)]), np.array([r.uniform(0, 7) for _ in range(7)])
    rgb = np.array([[r.randint(0, 255) for _ in range(3)] for _ in range(7)]).astype("uint8")
    ul = [(r.randrange(7), r.randrange(8)) for _ in range(7)]
    wrap = lambda f, c: (lambda i: np.asarray(f(plane(i)), dtype=float).reshape(i.shape + (c,)))

    def chips(i):
        if i.ndim == 2:
            return chips(i.ravel()).reshape(i.shape + (4,))
        got = image_chipper.chip_images_by_pixel_upper_lefts(src, [ul[k][0] for k in i], [ul[k][1] for k in i], 2, 2)
        got = got[0] if isinstance(got, tuple) else got
        return np.asarray(got, dtype=float).reshape(len(i), 4)

    def tiles(i):
        """An image of as many blocks of one value as items, cut into these."""
        p = plane(i)
        a = np.repeat(np.repeat(v[p], 2, axis=0), 3, axis=1)
        got, places = image_chipper.chip_entire_image_to_memory(a, 2, 3)
        out = np.full(p.shape + (8,), -1.)
        for c, (y, x) in zip(np.asarray(got, dtype=float).reshape(-1, 6), [q[:2] for q in np.asarray(places)]):
            out[int(y) // 2, int(x) // 3] = list(c) + [y % 2, x % 3]
        return out.reshape(i.shape + (8,))

    def mosaic(i):
        p = plane(i)
        yy, xx = np.mgrid[0:p.shape[0], 0:p.shape[1]]
        got = image_utils.create_detection_image_from_scores(v[p].ravel() + 1, np.stack([yy.ravel() * 2, xx.ravel() * 3], axis=1), 3, 2)
        return got.reshape(p.shape[0], 2, p.shape[1], 3).transpose(0, 2, 1, 3).reshape(i.shape + (6,))
    return [B("colours", 7, wrap(lambda p: image_utils.apply_colormap_to_grayscale_image(v[p], pal, min_clip=0, max_clip=99), 3)),
            B("blend", 7, wrap(lambda p: image_utils.blend_images(v[p], w[p], .3), 1)),
            B("opacity", 7, wrap(lambda p: ortho_tools.mask_image(rgb[p], rgb[3, 0]), 4)),
            B("warp", 7, wrap(lambda p: image_utils.grid_warp_image_band(src, gx[p], gy[p], interpolation="bilinear"), 1), tol="1/1000000"),
            B("chips", 7, chips, limit=5000), B("tiles", 7, tiles, limit=2500), B("mosaic", 7, mosaic, limit=11000),
            B("rows of an image", 7, wrap(lambda p: image_utils.unflatten_image_band(image_utils.flatten_image_band(v[p]), p.shape[1], p.shape[0]), 1))]


def spectra(r, scratch):
    nb = 3
    x = np.array([[r.uniform(0, 99) for _ in range(nb)] for _ in range(7)])
    mean = np.array([r.uniform(0, 99) for _ in range(nb)])
    q = np.array([[r.uniform(-1, 1) for _ in range(nb)] for _ in range(nb)])
    inv = q @ q.T + np.eye(nb)
    t = np.array([r.uniform(1, 99) for _ in range(nb)])

    def both(f2, f1, c=1):
        """Two-dimensional images and lists of spectra."""
        return lambda i: np.asarray(f2(x[i]) if i.ndim == 2 else f1(x[i]), dtype=float).reshape(i.shape + (c,))
    mask = lambda i: np.zeros(i.shape)
    m = lambda s, i: s.compute_image_cube_spectral_mean(x[i], mask(i))
    v = lambda s, i: s.compute_image_cube_spectral_covariance(x[i], mask(i)) * (i.size - 1) / i.size
    of = lambda i: s2 if i.ndim == 2 else s1
    data = np.array([r.uniform(0, 1) for _ in range(7)])

    def marked(i):
        sp = Spectrum()
        sp.set_wavelengths(np.arange(i.size) * 1.)
        sp.set_spectral_data(data[i.ravel()])
        sp.set_nodata_val(float(data[2]))
        got = np.array(sp.get_spectral_data())
        return np.where(np.isnan(got), -1., got).reshape(i.shape + (1,))
    return [B("ace", 7, both(lambda a: s2.ace(a, t, mean, inv), lambda a: s1.ace(a, t, mean, inv))), B("rx", 7, both(lambda a: s2.rx_anomaly_detector(a, mean, inv), lambda a: s1.rx_anomaly_detector(a, mean, inv)), tol="1/1000000"),
            B("sam", 7, both(lambda a: s2.sam(a, t), lambda a: s1.sam(a, t)), tol="1/1000000"),
            B("mean", 7, lambda i: np.asarray(m(of(i), i), dtype=float).ravel(), total=True, tol="1/1000000"),
            B("covariance", 7, lambda i: np.asarray(v(of(i), i), dtype=float).ravel(), total=True, tol="1/1000000"),
            B("unmasked mean", 7, lambda i: np.asarray(of(i).compute_image_cube_spectral_mean(x[i]), dtype=float).ravel(), total=True, tol="1/1000000"),
            B("marked", 7, marked)]


def files(r, scratch):
    at = lambda n: os.path.join(scratch, n)
    words = ["w%d" % (10 ** r.randint(0, 8) + k) for k in range(7)]
    vals = np.array([[round(r.uniform(-99, 99), 2) for _ in range(3)] for _ in range(7)])

    def lines(i):
        p = at("l.txt")
        file_utils.write_text_list_to_file([words[k] for k in i.ravel()], p)
        return np.array([float(w.strip()[1:]) for w in file_utils.read_text_list_from_file(p)]).reshape(i.shape + (1,))

    def table(i):
        p = at("t.csv")
        with open(p, "w") as f:
            f.write("a,b,c\n" + "".join(",".join("%.2f" % v for v in vals[k]) + "\n" for k in i.ravel()))
        d = CsvUtils.single_line_header_csv_to_dict(p)
        return stacked([[float(v) for v in d[k]] for k in "abc"]).reshape(i.shape + (3,))

    def library(i):
        p = at("s.csv")
        with open(p, "w") as f:
            f.write("w,r\n" + "".join("%d,%.2f\n" % (400 + j, vals[k, 0]) for j, k in enumerate(i.ravel())))
        return np.asarray(SpectrumFactory.csv.ascii.CsvAsciiFileFactory.from_csv_file(p).get_spectral_data(), dtype=float).reshape(i.shape + (1,))

    def envi(inter):
        def f(i):
            p = plane(i)
            envi_utils.write_envi_image(vals[p].astype("float32"), at("e.img"), interleave=inter)
            return np.asarray(envi_utils.read_envi_image(at("e.img"), at("e.img") + ".hdr"), dtype=float).reshape(i.shape + (3,))
        return f

    def gtiff(i):
        p = plane(i)
        im = GeotiffImageFactory.from_numpy_array(vals[p].astype("float32"), [4e5, 1., 0., 4e6, 0., -1.], PROJS["utm18n"]())
        im.write_to_disk(at("g.tif"))
        im = GeotiffImageFactory.from_file(at("g.tif"))
        a = np.asarray(im.read_all_image_data_from_disk(), dtype=float)
        b = np.stack([im.read_band_from_disk(k) for k in range(3)], axis=-1)
        os.remove(at("g.tif"))
        return np.concatenate([a, b], axis=-1).reshape(i.shape + (6,))
    return [B("lines", 7, lines), B("table", 7, table, limit=70000), B("library", 7, library, limit=70000), B("bsq", 7, envi("bsq")), B("bil", 7, envi("bil")), B("bip", 7, envi("bip")),
            B("gtiff", 7, gtiff, limit=70000)]


GROUPS = [sensors, lists, pictures, spectra, files]
