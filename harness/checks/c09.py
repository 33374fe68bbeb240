"""C09: pinhole cameras and focal plane arrays image by collinearity."""
import math
from fractions import Fraction

import numpy as np

import sensors as S
from geo import half_angle, random_tan, rat
from vf import enc, guard, num
from resippy.image_objects.earth_overhead.earth_overhead_point_calculators.pinhole_camera import PinholeCamera

ASSUMPTIONS = ["map projections are pyproj's; the utm zone of a position is decided by the specification outside the Norway/Svalbard exceptions"]
IFOV = {"microradians": 1e6, "radians": 1., "degrees": 180 / math.pi, "milliradians": 1e3}


def fov(case, r, s):
    for axis, f in (("x", s.calc.compute_ifov_x), ("y", s.calc.compute_ifov_y)):
        u = r.choice([None] + list(IFOV))
        v, err = guard(f) if u is None else guard(f, u)
        case.ev("ifov", b=1, axis=axis, err=err, tan="nan" if err else num(math.tan(float(v) / IFOV[u or "microradians"])))


def pinhole(ctx, i, r):
    """The bare camera: focal plane coordinates, all units."""
    t = S.tans(r)
    names = ["omega_units", "phi_units", "kappa_units"]
    ang, kw = S.angle_args(r, t, names)
    units = {}
    vals = []
    pos = [r.uniform(-1e5, 1e6), r.uniform(-1e5, 5e6), r.uniform(0, 5000)]
    for n, v in zip("xyz", pos):
        u = r.choice([None, "meters", "feet", "km"])
        if u:
            kw[n + "_units"] = u
        units[n] = u or "meters"
        vals.append(v / S.LEN[units[n]])
    fu = r.choice([None, "mm", "meters", "inches"])
    if fu:
        kw["focal_length_units"] = fu
    f = r.uniform(5, 300) * 1e-3 / S.LEN[fu or "mm"]
    cam = PinholeCamera()
    if r.random() < .3:
        guard(cam.init_pinhole_from_coeffs, 1, 2, 3, .1, .2, .3, 9)      # the last initialisation counts
    _, err = guard(cam.init_pinhole_from_coeffs, *vals, *ang, f, **kw)
    # x and y in metres exactly as the code's unit conversion must give them
    conv = [Fraction(v) * Fraction({"meters": "1", "feet": "381/1250", "km": "1000"}[units[n]]) for n, v in zip("xyz", vals)]
    desc = {"k": "fpa", "x": rat(conv[0]), "y": rat(conv[1]), "z": rat(conv[2]), "zu": "meters", "t": [rat(q) for q in t], "f": num(f),
            "fu": fu or "mm", "ppx": 1, "ppxu": "um", "ppy": 1, "ppyu": "um", "nx": 1, "ny": 1, "flipx": False, "flipy": False}
    case = ctx.case("pinhole-%d" % i, cams=[desc])
    s = S.Sensor(desc, cam, None, [float(c) for c in conv], S.mat(t), .5)
    s.behind = .07
    pts = s.points(r, r.randint(1, 5))
    a = [np.array([p[j] for p in pts]) for j in range(3)]
    res, err = (None, err) if err else guard(cam.world_to_image_plane, *a)
    S.ev2(case, "plane", res, err, (len(pts),), b=1, pts=enc(pts))


def grid(ctx, i, r, b):
    """A state of the camera model: exact pose, flips and point."""
    from pyproj import Proj
    t = [Fraction(str(x)) for x in b["t"]]
    fx, fy = b["flips"]
    desc = {"k": "fpa", "x": 500, "y": -200, "z": 1000, "zu": "meters", "t": [rat(x) for x in t], "f": 50, "fu": "mm", "ppx": 5,
            "ppxu": "um", "ppy": 4, "ppyu": "um", "nx": 640, "ny": 480, "flipx": fx, "flipy": fy}
    case = ctx.case("grid-%d" % i, cams=[desc])
    calc, err = guard(S.m_fpa.IdealPinholeFpaLocalUtmPointCalc.init_from_local_params, 500, -200, 1000, S.PROJS["utm18n"](),
                      *[half_angle(x) for x in t], 640, 480, 5, 4, 50, flip_x=fx, flip_y=fy)
    p = [float(Fraction(str(x))) for x in b["p"]]
    res, err = (None, err) if err else guard(calc.lon_lat_alt_to_pixel_x_y, *p)
    S.ev2(case, "px", res, err, (), b=1, pts=enc([p]))


def run(ctx):
    r = ctx.rng
    behs = ctx.mc("Camera_MC", what="exact grid of poses: rays share pixels, translation, optical axis, pixel field, flips, distortion is radial")
    for i, b in enumerate(behs if ctx.thorough else r.sample(behs, 300)):
        grid(ctx, i, r, b)
    for i in range(ctx.n(300, 4000)):
        pinhole(ctx, i, r)
    for i in range(ctx.n(700, 10000)):
        s = S.fpa(r)
        s.behind = .07 if r.random() < .5 else 0.
        case = ctx.case("fpa-%d" % i, cams=[s.desc])
        if s.err:
            case.ev("px", b=1, err=s.err, pts=[], r=[[], []], sh=[], osh=[])
            continue
        if s.utm:
            case.ev("utm", err="", **s.utm)
        for _ in range(r.randint(1, 2)):
            S.px_event(case, r, s)
        fov(case, r, s)
    ctx.judge("Sensor_Trace")
