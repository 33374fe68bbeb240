"""Objects that can be asked questions, for histories of questions (C35).

KINDS[name](seed, scratch) gives a K: make(s) a new object in state s (1 or 2), move(obj, s) gives an object the state s (or None: a new
object is made), qs a list of (name, ask(obj, *args), [args of variant 1, args of variant 2]).  Built from the seed alone, so that another
process builds the same.
"""
import copy
import os
import random
from fractions import Fraction

import numpy as np

import checks.c21                       # noqa: F401  (a stand-in for the reader library of binary trajectories)
import dems as D
import geo
import orthos as O
import sensors as S
from imgdrv import PROJS
from vf import num
from resippy.image_objects.earth_overhead.earth_overhead_point_calculators.earth_overhead_sensor_model import EarthOverheadSensorModel
from resippy.image_objects.earth_overhead.earth_overhead_point_calculators.fixtured_camera import FixturedCamera
from resippy.image_objects.earth_overhead.earth_overhead_point_calculators.igm_point_calc import IGMPointCalc
from resippy.image_objects.earth_overhead.earth_overhead_point_calculators.pinhole_camera import PinholeCamera
from resippy.image_objects.earth_overhead.geotiff.geotiff_image_factory import GeotiffImageFactory
from resippy.image_objects.image_factory import ImageFactory
from resippy.photogrammetry import ortho_tools
from resippy.photogrammetry.dem.dem_factory import DemFactory
from resippy.photogrammetry.nav.nav_factory import NavFactory
from resippy.spectral import spectral_image_processing_1d as s1
from resippy.spectral import spectral_image_processing_2d as s2
from resippy.spectral.spectrum import Spectrum
from resippy.spectral.spectrum_factories.spectrum_factory import SpectrumFactory
from resippy.utils import envi_utils, file_utils, geom_utils, photogrammetry_utils as pu, proj_utils, spectral_utils, time_utils
from resippy.utils.image_utils import image_chipper, image_mask_utils, image_utils
from resippy.utils.image_utils.image_registration import MMI
from resippy.utils.physical_camera_simulator import PhysicalCameraSimulator


class K:
    def __init__(self, make, qs, move=None):
        self.make, self.qs, self.move = make, qs, move


def flat(x):
    """(description, numbers): a long answer by some of its numbers."""
    if x is None or isinstance(x, (str, bool, np.bool_)):
        return [str(x)], []
    if isinstance(x, dict):
        t, v = ["{"], []
        for k in sorted(x, key=str):
            a, b = flat(x[k])
            t += [str(k)] + a
            v += b
        return t, v
    if isinstance(x, (list, tuple)) and not all(isinstance(q, (int, float, np.number)) for q in x):
        t, v = ["["], []
        for q in x:
            a, b = flat(q)
            t += a
            v += b
        return t + ["]"], v
    if hasattr(x, "magnitude"):
        return flat([str(x.units), x.magnitude])
    if hasattr(x, "srs"):
        return [x.srs], []
    if hasattr(x, "exterior"):
        return flat(np.array(x.exterior.coords))
    a = np.asarray(x)
    if a.dtype.kind == "c":
        a = np.stack([a.real, a.imag])
    if a.dtype.kind not in "biuf":
        return [type(x).__name__], []
    v = a.ravel()
    if v.size > 24:
        v = v[np.linspace(0, v.size - 1, 24).astype(int)]
    return [str(a.shape)], [num(float(q)) for q in v.tolist()]


def answer(fn, obj, args):
    """(text, values, error)."""
    try:
        t, v = flat(fn(obj, *args))
    except Exception as x:
        return "", [], type(x).__name__
    return " ".join(t), v, ""


def scribble(x):
    """Overwrite what was handed out."""
    if isinstance(x, np.ndarray) and x.dtype.kind in "iuf" and x.flags.writeable:
        x[...] = 77
    elif isinstance(x, (list, tuple)):
        for q in x:
            scribble(q)
    elif isinstance(x, dict):
        for q in x.values():
            scribble(q)


def rnd(seed, s=0):
    return random.Random("%s/%s" % (seed, s))


# ---- sensors
def sensor_qs(r, pts, proj, npix=(90, 70), top=400., dems=None):
    a = [np.array([p[j] for p in pts]) for j in range(3)]
    b = [q[::-1].reshape(2, -1).copy() for q in a]
    other = PROJS["wgs84"]() if not str(proj.srs).count("longlat") else PROJS["webmerc"]()

    def away(q):
        x, y = geo.reproject(proj, other, q[0], q[1])
        return [np.array(x), np.array(y), q[2]]
    px = [np.array([r.uniform(0, npix[k]) for _ in range(3)]) for k in range(2)]
    py = [np.array([[r.uniform(0, npix[k]) for _ in range(2)] for _ in range(2)]) for k in range(2)]
    alt = np.array([r.uniform(0, top) for _ in range(3)])
    qs = [("px", lambda c, x, y, z: c.lon_lat_alt_to_pixel_x_y(x, y, z), [a, b]),
          ("px here", lambda c, x, y, z: c.lon_lat_alt_to_pixel_x_y(float(x[0]), float(y[0]), float(z[0])), [a, [q[1:] for q in a]]),
          ("px away", lambda c, x, y, z: c.lon_lat_alt_to_pixel_x_y(x, y, z, world_proj=other), [away(a), away(b)]),
          ("ground", lambda c, x, y, z: c.pixel_x_y_alt_to_lon_lat(x, y, z), [px + [alt], py + [float(alt[1])]]),
          ("ground away", lambda c, x, y, z: c.pixel_x_y_alt_to_lon_lat(x, y, z, world_proj=other), [px + [alt], py + [0.]])]
    if dems:
        qs.append(("terrain", lambda c, x, y, d: c.pixel_x_y_to_lon_lat_alt(x, y, d), [px + [dems[0]], px + [dems[1]]]))
    return qs


TILT = Fraction(1, 12)


def frame(builder):
    def k(seed, scratch):
        r = rnd(seed)
        proj = PROJS["utm18n"]()

        def sensor(s):
            q = builder(rnd(seed, s), proj)
            q.calc.set_projection(proj)
            q.calc.set_approximate_lon_lat_center(q.pos[0], q.pos[1])
            return q
        s1_ = sensor(1)
        dem = [DemFactory.constant_elevation(float(r.randint(0, 40))), D.tilted(r, s1_.pos[0], s1_.pos[1], 900., 90., proj).dem]
        return K(lambda s: sensor(s).calc, sensor_qs(r, s1_.points(r, 4), proj, dems=dem))
    return k


def opencv(seed, scratch):
    """States share the camera and differ in pose."""
    r, proj = rnd(seed), PROJS["utm18n"]()
    base = S.opencv(rnd(seed, 1), tilt=TILT, mild=True, alt=1200., npix=(90, 70))
    import resippy.image_objects.earth_overhead.earth_overhead_point_calculators.opencv_point_calc as m
    pose = {s: (float(base.pos[0]) + r.uniform(-50, 50), float(base.pos[1]) + r.uniform(-50, 50), r.uniform(900, 1500),
                r.uniform(-.1, .1), r.uniform(-.1, .1), r.uniform(-3, 3)) for s in (1, 2)}

    def move(c, s):
        c.init_extrinsic(*pose[s])
        c.set_projection(proj)
        c.set_approximate_lon_lat_center(pose[s][0], pose[s][1])
        return c
    pts = [[pose[1][0] + r.uniform(-90, 90), pose[1][1] + r.uniform(-90, 90), r.uniform(0, 99)] for _ in range(4)]
    dem = [DemFactory.constant_elevation(float(r.randint(0, 40))), D.tilted(r, pose[1][0], pose[1][1], 900., 90., proj).dem]
    return K(lambda s: move(m.OpenCVPointCalc.init_from_params(dict(base.params)), s), sensor_qs(r, pts, proj, dems=dem), move)


def rpc(seed, scratch):
    r = rnd(seed)
    made = lambda s: S.rpc(rnd(seed, s), strong=False)
    q = made(1)
    return K(lambda s: made(s).calc, sensor_qs(r, q.points(r, 4), PROJS["wgs84"]())[:3])


def geot(seed, scratch):
    r, proj = rnd(seed), PROJS["utm18n"]()
    g = {s: [4e5 + r.uniform(-99, 99), r.uniform(1, 4), r.uniform(-.5, .5), 4e6, r.uniform(-.5, .5), -r.uniform(1, 4)] for s in (1, 2)}

    def move(c, s):
        c.set_geot(list(g[s]))
        return c
    pts = [[4e5 + r.uniform(-90, 90), 4e6 + r.uniform(-90, 90), 0.] for _ in range(4)]
    qs = sensor_qs(r, pts, proj) + [("extent", lambda c: c.get_world_extent_native(), [[], []])]
    return K(lambda s: S.geot(rnd(seed), g=list(g[s]), proj=proj, npix=(90, 70)).calc, qs, move)


def igm(seed, scratch):
    r, proj = rnd(seed), PROJS["utm18n"]()
    yy, xx = np.mgrid[0:6, 0:7]

    def make(s):
        q = rnd(seed, s)
        j = lambda: np.array([[q.uniform(-.2, .2) for _ in range(7)] for _ in range(6)])
        return IGMPointCalc(4e5 + 2 * (xx + j()), 4e6 - 2 * (yy + j()), j(), proj)
    pts = [[4e5 + r.uniform(0, 11), 4e6 - r.uniform(0, 9), 0.] for _ in range(4)]
    px = [[np.array([r.randrange(7) for _ in range(3)]), np.array([r.randrange(6) for _ in range(3)])] for _ in range(2)]
    qs = sensor_qs(r, pts, proj)[:3] + [("ground", lambda c, x, y: c.pixel_x_y_alt_to_lon_lat(x, y, 0), px)]
    return K(make, qs)


def multi(seed, scratch):
    r, proj = rnd(seed), PROJS["utm18n"]()
    one = lambda s, b: S.fpa(rnd(seed, s), tilt=TILT, via="local", alt=1500. + 50 * b, proj=proj, npix=(90, 70))
    both = {s: [one(s, b) for b in range(2)] for s in (1, 2)}
    first = both[1][0]

    def move(m, s):
        for b in range(2):
            m.update_point_calc(b, both[s][b].calc)
        m.set_approximate_lon_lat_center(*both[s][0].pos[:2])
        return m

    def make(s):
        m = EarthOverheadSensorModel()
        m.set_point_calcs([q.calc for q in both[s]])
        m.set_projection(proj)
        m.set_approximate_lon_lat_center(*both[s][0].pos[:2])
        return m
    p = first.points(r, 3)
    a = [np.array([q[j] for q in p]) for j in range(3)]
    px = [np.array([r.uniform(0, 70) for _ in range(3)]) for _ in range(2)]
    return K(make, [("px", lambda c, b, x, y, z: c.lon_lat_alt_to_pixel_x_y(x, y, z, band=b), [[0] + a, [1] + a]),
                    ("ground", lambda c, b, x, y: c.pixel_x_y_alt_to_lon_lat(x, y, 0, band=b), [[0] + px, [1] + px]),
                    ("band", lambda c, b, x, y, z: c.get_point_calc(b).lon_lat_alt_to_pixel_x_y(x, y, z), [[0] + a, [1] + a])], move)


def pinhole(seed, scratch):
    r = rnd(seed)
    co = {s: (r.uniform(-9, 9), r.uniform(-9, 9), r.uniform(500, 900), r.uniform(-9, 9), r.uniform(-9, 9), r.uniform(-170, 170), r.uniform(20, 90)) for s in (1, 2)}

    def move(c, s):
        c.init_pinhole_from_coeffs(*co[s], omega_units="degrees", phi_units="degrees", kappa_units="degrees")
        return c
    w = [[np.array([r.uniform(-200, 200) for _ in range(n)]) for _ in range(2)] + [np.array([r.uniform(0, 50) for _ in range(n)])] for n in (3, 3)]
    return K(lambda s: move(PinholeCamera(), s), [("plane", lambda c, x, y, z: c.world_to_image_plane(x, y, z), w),
                                                  ("pose", lambda c, k: [np.array(c.M), c.X] if k else [c.f, c.omega], [[0], [1]])], move)


def fixture(seed, scratch):
    def move(c, s):
        q = rnd(seed, s)
        c.set_fixture_xyz(*[q.uniform(-99, 99) for _ in range(3)])
        c.set_fixture_orientation_by_roll_pitch_yaw(*[q.uniform(-1, 1) for _ in range(3)])
        c.set_relative_camera_xyz(*[q.uniform(-2, 2) for _ in range(3)])
        c.set_boresight_matrix_from_camera_relative_rpy_params(*[q.uniform(-1, 1) for _ in range(3)])
        return c
    return K(lambda s: move(FixturedCamera(), s), [("M", lambda c: c.get_camera_absolute_M_matrix(), [[], []]),
                                                   ("xyz", lambda c: c.get_camera_absolute_xyz(), [[], []]),
                                                   ("fixture", lambda c: list(c.get_fixture_xyz()), [[], []])], move)


# ---- terrain and trajectories
def dem(seed, scratch):
    r, proj = rnd(seed), PROJS["utm18n"]()
    path = {s: os.path.join(scratch, "dem%d.tif" % s) for s in (1, 2)}
    g = [4e5, 10., 0., 4e6, 0., -10.]
    for s in (1, 2):
        q = rnd(seed, s)
        D.write_raster(path[s], np.array([[q.uniform(0, 90) for _ in range(8)] for _ in range(7)]).astype("float32"), g, 32618)
    method = r.choice(["nearest", "bilinear"])

    def move(d, s):
        d.set_geotiff_image(GeotiffImageFactory.from_file(path[s]))
        return d
    p = [[np.array([r.uniform(1, 68) for _ in range(4)]), np.array([r.uniform(1, 58) for _ in range(4)])] for _ in range(2)]
    p = [[4e5 + p[0][0], 4e6 - p[0][1]], [(4e5 + p[1][0]).reshape(2, 2), (4e6 - p[1][1]).reshape(2, 2)]]
    other = PROJS["wgs84"]()
    away = [[np.array(v) for v in geo.reproject(proj, other, *q)] for q in p]
    return K(lambda s: DemFactory.from_gtiff_file(path[s], interpolation_method=method),
             [("heights", lambda d, x, y: d.get_elevations(x, y), p), ("heights away", lambda d, x, y: d.get_elevations(x, y, world_proj=other), away),
              ("one height", lambda d, x, y: d.get_elevations(float(x.ravel()[0]), float(y.ravel()[0])), p),
              ("extremes", lambda d, k: float([d.get_highest_alt, d.get_lowest_alt][k]()), [[0], [1]]),
              ("mean", lambda d: float(d.get_mean_alt()), [[], []])], move)


def nav(seed, scratch):
    r = rnd(seed)
    path = {}
    for s in (1, 2):
        q = rnd(seed, s)
        path[s] = os.path.join(scratch, "nav%d.txt" % s)
        with open(path[s], "w") as f:
            for k in range(6):
                f.write(" ".join(["id%d" % k, "%d" % (100 + 2 * k)] + ["%.3f" % q.uniform(-99, 99) for _ in range(8)]) + "\n")
    kw = dict(proj="utm", zone=18, ellps="WGS84", datum="WGS84")

    def move(n, s):
        n.load_from_file(path[s], **kw)
        return n
    t = [[np.array([r.uniform(100, 110) for _ in range(3)])], [r.uniform(100, 110)]]
    return K(lambda s: NavFactory.from_applanix_eo_file(path[s], **kw),
             [("xs", lambda n, t: n.get_world_xs(t), t), ("ys", lambda n, t: n.get_world_ys(t), t), ("alts", lambda n, t: n.get_alts(t), t),
              ("headings", lambda n, t: n.get_headings(t), t), ("records", lambda n, t: n.get_nav_records(t), t[1:] * 2)], move)


# ---- pictures, cubes and spectra: the object is the array or its holder, moved by overwriting its values
def cube_of(seed, s, shape, dt):
    q = rnd(seed, s)
    return np.array([q.randint(0, 255) for _ in range(int(np.prod(shape)))]).astype(dt).reshape(shape)


def overwrite(seed, shape, dt):
    def move(a, s):
        a[...] = cube_of(seed, s, shape, dt)
        return a
    return (lambda s: cube_of(seed, s, shape, dt)), move


def detectors(seed, scratch, dt="float64"):
    r = rnd(seed)
    make, move = overwrite(seed, (4, 6, 3), dt)
    mask = [np.array([[float(r.random() < .2) for _ in range(6)] for _ in range(4)]) for _ in range(2)]
    t = [np.array([r.uniform(1, 200) for _ in range(3)]) for _ in range(2)]
    return K(make, [("mean", lambda x, m: s2.compute_image_cube_spectral_mean(x, m), [[m] for m in mask]),
                    ("cov", lambda x, m: s2.compute_image_cube_spectral_covariance(x, m), [[m] for m in mask]),
                    ("rx", lambda x, v: s2.rx_anomaly_detector(x, spectral_mean=v), [[None], t[:1]]),
                    ("ace", lambda x, v: s2.ace(x, v), [[v] for v in t]), ("sam", lambda x, v: s2.sam(x, v), [[v] for v in t]),
                    ("demean", lambda x, m: s2.demean_image_data(x, m), [[m] for m in mask]),
                    ("pca", lambda x, n: np.abs(s2.compute_image_cube_pca(x, n)), [[2], [3]]),
                    ("flat", lambda x, k: spectral_utils.flatten_image_cube(x) * 1 + k, [[0], [1]])], move)


def pictures(seed, scratch, dt="float64"):
    r = rnd(seed)
    make, move = overwrite(seed, (7, 9), dt)
    x, y = [np.array([[r.uniform(0, n) for _ in range(3)] for _ in range(2)]) for n in (8, 6)]
    b = [cube_of(seed, "b%d" % k, (7, 9), "float64") for k in range(2)]
    return K(make, [("normalise", lambda a, u: image_utils.normalize_grayscale_image(a, 0, u), [[1], [50]]),
                    ("blend", lambda a, c: image_utils.blend_images(a, c), [[c] for c in b]),
                    ("colours", lambda a, c: image_utils.apply_colormap_to_grayscale_image(a, color_palette=c),
                     [[np.array([[0, 0, 0], [1., 0, .1]])], [np.array([[.1, .1, .1], [0, 1., 0], [.03, .4, .8]])]]),
                    ("colours within", lambda a, lo, hi: image_utils.apply_colormap_to_grayscale_image(a, min_clip=lo, max_clip=hi), [[10, 90], [20, 200]]),
                    ("warp", lambda a, i, n: image_utils.grid_warp_image_band(a, x, y, nodata_val=n, interpolation=i), [["nearest", 0], ["bilinear", 5]]),
                    ("chips", lambda a, n: image_chipper.chip_entire_image_to_memory(a, n, 3), [[2], [4]]),
                    ("resize", lambda a, n: image_utils.resize_image(a.astype("uint8"), n, 5), [[4], [11]]),
                    ("agreement", lambda a, c: MMI.image_mmi(a, c), [[c] for c in b]),
                    ("scores", lambda a, n: image_utils.create_detection_image_from_scores(a.ravel()[:3], np.array([(0, 0), (1, 2), (3, n)]), 3, 2), [[1], [4]])], move)


def spectrum(seed, scratch):
    r = rnd(seed)

    def move(sp, s):
        q = rnd(seed, s)
        sp.set_wavelengths(np.sort(np.array([q.uniform(300, 990) for _ in range(12)])))
        v = np.array([q.uniform(0, 1) for _ in range(12)])
        sp.set_spectral_data(v)
        sp.set_fwhm(np.array([q.uniform(1, 9) for _ in range(12)]))
        sp.set_nodata_val(2. + s)
        return sp

    def response(c):
        p = Spectrum()
        p.set_wavelengths(np.linspace(c - 290, c + 290, 9))
        p.set_spectral_data(np.array([0, .1, .5, .9, 1, .9, .5, .1, 0]))
        return p
    return K(lambda s: move(Spectrum(), s), [("values", lambda sp, k: sp.get_spectral_data(nodata_to_nan=bool(k)), [[0], [1]]),
                                             ("waves", lambda sp: np.array(sp.get_wavelengths()), [[], []]),
                                             ("bands", lambda sp, c: sp.resample_spectrum_direct([response(q) for q in c], np.array(c)).get_spectral_data(),
                                              [[[600., 700.]], [[550., 650., 720.]]])], move)


def scene(seed, scratch):
    """Pictures put on the ground: moved by giving the image other data."""
    class C:
        pass
    c = C()
    c.scratch = scratch
    proto = O.Scene(c, rnd(seed), one=True)
    r = rnd(seed, "q")
    box = [proto.cx - proto.w, proto.cy - proto.w, proto.cx + proto.w, proto.cy + proto.w]
    poly = geom_utils.bounds_2_shapely_polygon(box[0], box[2], box[1], box[3])

    def make(s):
        sc = O.Scene(c, rnd(seed), one=True)
        im = sc.image("memory")
        return move(im, s)

    def move(im, s):
        im.set_image_data(cube_of(seed, s, proto.a.shape, proto.dt))
        return im
    flat_ = DemFactory.constant_elevation(3.)
    px = [np.array([r.uniform(1, n - 2) for _ in range(3)]) for n in (proto.nx, proto.ny)]
    gx, gy = [np.array([v + r.uniform(-.5, .5) * proto.w for _ in range(3)]) for v in (proto.cx, proto.cy)]
    return K(make, [("ortho", lambda im, n, d: ortho_tools.create_ortho_gtiff_image_world_to_sensor(im, n, 5, poly, proto.proj, dem=d).get_image_data(),
                     [[4, None], [6, flat_]]),
                    ("extent", lambda im, d: ortho_tools.get_extent(im, dem=d), [[None], [flat_]]),
                    ("ground", lambda im, d: ortho_tools.get_pixel_lon_lats(im, dem=d, pixels_x=px[0].copy(), pixels_y=px[1].copy()), [[None], [flat_]]),
                    ("hidden", lambda im, d: ortho_tools.are_pixels_obstructed_by_dem(im, px[0].copy(), px[1].copy(), gx.copy(), gy.copy(), d), [[flat_], [DemFactory.constant_elevation(0)]]),
                    ("data", lambda im, b: np.array(im.get_image_band(b)), [[0], [proto.nb - 1]])], move)


def simulator(seed, scratch):
    r = rnd(seed)
    path = os.path.join(scratch, "ground.tif")
    D.write_raster(path, cube_of(seed, "g", (60, 60), "uint16"), [4e5, 2., 0., 4e6, 0., -2.], 32618)
    at = [[4e5 + 60 + r.uniform(-20, 20), 4e6 - 60 + r.uniform(-20, 20), r.uniform(150, 300), r.uniform(-3, 3), r.uniform(-3, 3), r.uniform(-90, 90)] for _ in range(2)]

    def make(s):
        q = rnd(seed, s)
        return PhysicalCameraSimulator(path, 20., 6, 5, pixel_pitch_x=800., pixel_pitch_y=800., boresight_roll=q.uniform(-2, 2), boresight_pitch=q.uniform(-2, 2),
                                       boresight_yaw=q.uniform(-99, 99))
    def shot(sim, *a):
        im = sim.create_overhead_image_object(*a)
        return [im.get_image_data(), list(im.get_point_calculator().lon_lat_alt_to_pixel_x_y(np.array([4e5 + 60.]), np.array([4e6 - 60.]), np.array([0.])))]
    return K(make, [("shot", shot, at), ("seen", lambda sim, *a: sim.create_overhead_image_object(*a).get_image_data(), at)])


# ---- plain functions, and files that are written again
def clock(seed, scratch):
    t = {s: rnd(seed, s).uniform(4e8, 1.7e9) for s in (1, 2)}

    def move(o, s):
        o[0] = t[s]
        return o
    return K(lambda s: [t[s]], [("gps", lambda o, d: time_utils.utc_timestamp_to_gps_timestamp(o[0] + d), [[0.], [1e7]]),
                                ("utc", lambda o, d: time_utils.gps_timestamp_to_utc_timestamp(o[0] - 315964800 + d), [[0.], [1e7]]),
                                ("week", lambda o, d: list(time_utils.utc_timestamp_to_gps_week_and_seconds(o[0] + d)), [[0.], [1e7]])], move)


def places(seed, scratch):
    from shapely.geometry import LineString
    at = {s: (rnd(seed, s).uniform(-80, -70), rnd(seed, s).uniform(5, 55)) for s in (1, 2)}
    if rnd(seed).random() < .6:
        at = {s: (at[1][0], (3 - 2 * s) * (at[1][1] % .9 + .05)) for s in (1, 2)}           # on both sides of the equator
    w, m, u = PROJS["wgs84"](), PROJS["webmerc"](), PROJS["utm18n"]()

    def move(o, s):
        o[:] = list(at[s])
        return o
    rot = lambda o, k: [o[0] * .01 + k * .1, o[1] * .01, o[0] * .02]
    return K(lambda s: list(at[s]),
             [("zone", lambda o, d: proj_utils.decimal_degrees_to_local_utm_proj(o[0] + d, o[1]).srs, [[0.], [30.]]),
              ("line", lambda o, p: np.array(pu.reproject_geometry(LineString([(o[0], o[1]), (o[0] + .1, o[1])]), w, p).coords), [[m], [u]]),
              ("shift", lambda o, e: list(pu.shift_points_by_meters(e, 5., w, np.array([o[0]]), np.array([o[1]]))), [[10.], [300.]]),
              ("grid", lambda o, n: list(pu.create_ground_grid(o[0], o[0] + 1, o[1], o[1] + 1, n, 3)), [[2], [4]]),
              ("cells", lambda o, n: list(pu.world_poly_to_geo_t(geom_utils.bounds_2_shapely_polygon(o[0], o[0] + 1, o[1], o[1] + 2), n, 3)), [[2], [4]]),
              ("matrix", lambda o, q: pu.create_M_matrix(*rot(o, 0), order=q), [["rpy"], ["yrp"]]),
              ("angles", lambda o, k: list(pu.solve_for_omega_phi_kappa(pu.create_M_matrix(*rot(o, k)))), [[0], [1]]),
              ("offset", lambda o, k: pu.solve_for_boresight_angle_offsets(pu.create_M_matrix(*rot(o, k)), pu.create_M_matrix(*rot(o, 2))), [[0], [1]])], move)


HEAD = "ENVI\nsamples = 3\nlines = 2\nbands = %d\nheader offset = 0\ndata type = 4\ninterleave = bsq\nbyte order = 0\nwavelength = { %s }\n"


def files(seed, scratch):
    """The object is a folder; moving it writes its files again."""
    def write(d, s):
        q = rnd(seed, s)
        for k in range(2):
            with open(os.path.join(d, "s%d.csv" % k), "w") as f:
                f.write("w,r\n" + "".join("%d,%.4f\n" % (400 + 9 * j, q.random()) for j in range(5 if k else q.randint(3, 6))))
            with open(os.path.join(d, "t%d.txt" % k), "w") as f:
                f.write("\n".join("%s %s" % (q.choice("abc"), q.randint(10, 99)) for _ in range(3 if k else q.randint(2, 5))))
            nb = 2 if k else q.randint(1, 3)
            with open(os.path.join(d, "c%d.hdr" % k), "w") as f:
                f.write(HEAD % (nb, ", ".join("%.1f" % q.uniform(400, 900) for _ in range(nb))))
            np.array([q.uniform(0, 9) for _ in range(6 * nb)], dtype="float32").tofile(os.path.join(d, "c%d.img" % k))
            p = os.path.join(d, "g%d.tif" % k)
            if os.path.exists(p):
                os.remove(p)
            D.write_raster(p, cube_of(seed, "%s-%s" % (s, k), (4, 5), "float32"), [4e5 + s, 10. + k, 0., 4e6, 0., -10.], 32618)
        return d

    def make(s):
        d = os.path.join(scratch, "d%d" % len(os.listdir(scratch)))
        os.makedirs(d)
        return write(d, s)
    n = lambda name: (lambda d, k: os.path.join(d, name % k))
    csv, txt, hdr, img, tif = n("s%d.csv"), n("t%d.txt"), n("c%d.hdr"), n("c%d.img"), n("g%d.tif")

    def spec(d, k):
        sp = SpectrumFactory.csv.ascii.CsvAsciiFileFactory.from_csv_file(csv(d, k))
        return [sp.get_wavelengths(), sp.get_spectral_data()]

    def gtiff(d, k):
        im = GeotiffImageFactory.from_file(tif(d, k))
        return [im.read_all_image_data_from_disk(), im.get_point_calculator().get_geot()]
    v = [[0], [1]]
    return K(make, [("spectrum", spec, v), ("text", lambda d, k: file_utils.read_text_list_from_file(txt(d, k)), v),
                    ("header", lambda d, k: {a: b for a, b in envi_utils.read_envi_header(hdr(d, k)).items()}, v),
                    ("cube", lambda d, k: envi_utils.read_envi_image(img(d, k), hdr(d, k)), v), ("gtiff", gtiff, v),
                    ("heights", lambda d, k: DemFactory.from_gtiff_file(tif(d, k)).get_elevations(np.array([4e5 + 15.]), np.array([4e6 - 15.])), v),
                    ("envi object", lambda d, k: ImageFactory.envi.from_file(img(d, k)).read_all_image_data_from_disk(), v)], write)


KINDS = {"fpa": frame(lambda r, p: S.fpa(r, tilt=TILT, via="local", alt=1500., proj=p, npix=(90, 70))),
         "pix4d": frame(lambda r, p: S.pix4d(r, tilt=TILT, mild=True, alt=1500., proj=p, npix=(90, 70))),
         "opencv": opencv, "rpc": rpc, "geot": geot, "igm": igm, "multi": multi, "pinhole": pinhole, "fixture": fixture, "dem": dem, "nav": nav,
         "detectors": detectors, "detectors int": lambda seed, scratch: detectors(seed, scratch, "int32"), "pictures": pictures,
         "pictures small": lambda seed, scratch: pictures(seed, scratch, "uint8"), "spectrum": spectrum, "scene": scene, "simulator": simulator, "clock": clock, "places": places, "files": files}


def fresh_args(a):
    return [copy.deepcopy(v) if isinstance(v, (np.ndarray, list)) else v for v in a]
