"""C15: ray casting finds the first terrain intersection along the line of sight."""
from fractions import Fraction

import numpy as np

import dems as D
import sensors as S
from geo import reproject
from imgdrv import PROJS
from vf import enc, guard, num
from resippy.image_objects.earth_overhead.earth_overhead_point_calculators.earth_overhead_sensor_model import EarthOverheadSensorModel

ASSUMPTIONS = ["the terrain lies below the sensor; the given highest and lowest heights bound it",
               "undistorted and mildly distorted frame cameras up to 32 degrees off nadir, and affine georeferences",
               "planar native coordinates (the ray between two ground positions is straight)"]


def sensor(r):
    """A sensor some way above the ground, its ground centre and half width of its field there."""
    k = r.randrange(5)
    proj = PROJS["utm18n"]()
    alt = r.uniform(900, 2500)
    tilt = Fraction(r.choice([0, 1, 3, 6, 6]), 20)
    if k == 0:
        s = S.geot(r, g=[r.uniform(4e5, 5e5), r.uniform(1, 5), r.uniform(-.4, .4), r.uniform(3e6, 5e6), r.uniform(-.4, .4), -r.uniform(1, 5)], proj=proj, npix=(100, 80))
    elif k == 1:
        s = S.opencv(r, tilt=tilt, mild=True, alt=alt)
        if not s.err:
            s.calc.set_projection(proj)
    elif k == 2:
        s = S.pix4d(r, tilt=tilt, mild=True, alt=alt, proj=proj)
    else:
        s = S.fpa(r, tilt=tilt, via="local", alt=alt, proj=proj)
    s.proj = proj
    return s


def place(r, s):
    """Ground centre, half width, ground sample distance."""
    if s.desc["k"] == "geot":
        g = s.calc.get_geot()
        return g[0] + 50 * g[1] + 40 * g[2], g[3] + 50 * g[4] + 40 * g[5], 150., 5.
    h = s.pos[2]
    d = s.M.T @ np.array([0, 0, -1.])
    c = [s.pos[k] - d[k] / d[2] * h for k in (0, 1)]
    w = max(20., min(s.half, .4) * h / abs(d[2]))
    res, err = guard(s.calc.lon_lat_alt_to_pixel_x_y, np.array([c[0], c[0] + 1.]), np.array([c[1], c[1]]), np.zeros(2))
    per = 1. if err else float(np.hypot(res[0][1] - res[0][0], res[1][1] - res[1][0]))
    return c[0], c[1], w, 2 / max(per, 1e-9)


def pixels(r, s, cx, cy, w, cnt):
    """Pixels looking at the neighbourhood of the ground centre."""
    pts = [[cx + r.uniform(-w, w) * .6, cy + r.uniform(-w, w) * .6] for _ in range(cnt)]
    res, err = guard(s.calc.lon_lat_alt_to_pixel_x_y, np.array([p[0] for p in pts]), np.array([p[1] for p in pts]), np.zeros(cnt))
    if err:
        return None
    return [[float(x), float(y)] for x, y in zip(*res)]


def terrain(ctx, r, cx, cy, w, proj, kind=None):
    h = r.uniform(20, 250)
    kind = r.randrange(6) if kind is None else kind
    if kind == 0:
        return D.constant(r.choice([0, r.uniform(-50, 400)]))
    if kind in (1, 2, 3):
        t = D.tilted(r, cx, cy, w, h, proj) if kind == 1 else D.maxmin(r, cx, cy, w, h, proj)
        return D.abroad(r, t, proj) if r.random() < .4 else t
    return D.raster(r, cx, cy, max(w, 180.), h, ctx.scratch)     # slanted lines of sight stay over it


def cast(case, r, s, t, px, sh, d, gsd, calc=None, band=None):
    xs, ys = S.shaped([p[0] for p in px], sh), S.shaped([p[1] for p in px], sh)
    keep = xs.copy(), ys.copy()
    kw = {}
    lo, hi = t.lo, t.hi
    if r.random() < .3:
        lo, hi = lo - r.uniform(0, 30), hi + r.uniform(0, 30)
        kw = {"dem_highest_alt": hi, "dem_lowest_alt": lo}
    if band is not None:
        kw["band"] = band
    if d is not None:
        kw["dem_sample_distance"] = d
    res, err = guard((calc or s.calc).pixel_x_y_to_lon_lat_alt, xs, ys, t.dem, **kw)
    ok = not err and len(res) == 3
    case.ev("cast", err=err or ("" if ok else "not-three"), px=enc(px), sh=list(sh), osh=[list(np.shape(q)) for q in res] if ok else [],
            r=[[num(float(v)) for v in np.ravel(q)] for q in res] if ok else [[], [], []], d=num(float(d or 5)), gsd=num(gsd),
            top=num(float(hi)), slope=num(t.slope), plane=t.plane)
    if ok and r.random() < .25:
        other = PROJS["webmerc"]()
        want = reproject(s.proj, other, res[0], res[1])
        r2, e2 = guard((calc or s.calc).pixel_x_y_to_lon_lat_alt, keep[0], keep[1], t.dem, world_proj=other, **kw)
        if not e2:
            r2 = (r2[0] + 0, r2[1] + 0, r2[2])
        case.ev("other", err=e2, r=[[num(float(v)) for v in np.ravel(q)] for q in r2] if not e2 else [[], [], []],
                want=S.flat2(want) + [[num(float(v)) for v in np.ravel(res[2])]])


def shape(r):
    return r.choice([(1,), (r.randint(2, 7),), (2, 3), (r.randint(1, 3), r.randint(1, 3)), (1, 4), (4, 1)])


def run(ctx):
    r = ctx.rng
    behs = ctx.mc("RayCast_MC", what="sampling march over every 5x2 raster of three heights, four rays, two sampling distances; the hit is on the ray, on the terrain and the first")
    behs = behs if ctx.thorough else r.sample(behs, 50)
    for i in range(len(behs) + ctx.n(260, 4000)):
        s = sensor(r)
        if s.err:
            case = ctx.case("sensor-%d" % i, cam={"k": "geot", "g": [0, 1, 0, 0, 0, 1]}, terrain={"k": "const", "z": 0})
            case.ev("cast", err="construction")
            continue
        cx, cy, w, gsd = place(r, s)
        if s.pos:
            s.calc.set_approximate_lon_lat_center(*(s.pos[:2] if r.random() < .5 else (cx, cy)))
        if i < len(behs):
            v = np.array([behs[i]["v"]] * 2, dtype=float) * 25
            t = D.raster(r, cx, cy, w, 0, ctx.scratch, v=v, cell=max(w, 90.) / 2.5)
        else:
            t = terrain(ctx, r, cx, cy, w, s.proj)
        case = ctx.case("%s-%d" % ("spec" if i < len(behs) else "cast", i), cam=s.desc, terrain=t.desc)
        sh = shape(r)
        px = pixels(r, s, cx, cy, w, int(np.prod(sh)))
        if px is None:
            case.ev("cast", err="pixels")
            continue
        d = r.choice([None, 1., 2, 5., w / 30, w / 8])
        if i >= len(behs) and s.pos and r.random() < .5:
            v = s.M.T @ np.array([0, 0, -1.])
            run_ = float(np.hypot(v[0], v[1]) / -v[2])
            if run_ > .2:                   # features the sampling must not step over
                h = r.uniform(100, 250)
                d = max(h * run_ / r.uniform(8, 14), 1.)
                ux, uy = v[0] / np.hypot(v[0], v[1]), v[1] / np.hypot(v[0], v[1])
                t = D.narrow(r, cx, cy, d, h, -float(ux), -float(uy), h * run_, s.proj)
                case.d["terrain"] = t.desc
                if s.desc["k"] == "fpa" and r.random() < .6:     # and a ray straight down among them
                    q, e = guard(s.calc.lon_lat_alt_to_pixel_x_y, s.pos[0] + .1, s.pos[1], 0.)
                    if not e:
                        sh = r.choice([(12,), (4, 3), (1, 9)])
                        px = pixels(r, s, cx, cy, w, int(np.prod(sh)))
                        for j in r.sample(range(len(px)), r.randint(4, 8)):
                            px[j] = [float(q[0]), float(q[1])]
        band, calc = None, None
        if s.desc["k"] in ("opencv", "pix4d") and r.random() < .3:        # through a sensor model, second band
            calc = EarthOverheadSensorModel()
            calc.set_point_calcs([S.pix4d(r, tilt=Fraction(1, 10), alt=900.).calc, s.calc])
            calc.set_projection(s.proj)
            calc.set_approximate_lon_lat_center(cx, cy)
            band = 1
        cast(case, r, s, t, px, sh, d, gsd, calc, band)
    ctx.judge("RayCast_Trace")
