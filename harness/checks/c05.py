"""C05: conversions are elementwise, shape preserving and projection aware for every calculator."""
import numpy as np
from pyproj import Proj, transform

import sensors as S
from imgdrv import PROJS
from vf import enc, guard, num
from resippy.photogrammetry import crs_defs
from resippy.image_objects.earth_overhead.earth_overhead_point_calculators.earth_overhead_sensor_model import EarthOverheadSensorModel
from resippy.image_objects.earth_overhead.earth_overhead_point_calculators.igm_point_calc import IGMPointCalc

ASSUMPTIONS = ["map projections are pyproj's", "an altitude array has the shape of the coordinates"]
TOL = "1/10000000"


def igm(r):
    ny, nx = r.randint(3, 6), r.randint(3, 7)
    yy, xx = np.mgrid[0:ny, 0:nx]
    lon = 4e5 + 2. * xx + .3 * yy + np.array([[r.uniform(-.2, .2) for _ in range(nx)] for _ in range(ny)])
    lat = 4e6 - 2. * yy + .2 * xx
    s = S.Sensor({"k": "igm"}, IGMPointCalc(lon, lat, r.choice([0, 12.5, lon * 0 + 3.]), PROJS["utm18n"]()), PROJS["utm18n"]())
    s.points = lambda rr, n: [[4e5 + rr.uniform(0, 2 * nx), 4e6 - rr.uniform(0, 2 * ny), rr.uniform(0, 50)] for _ in range(n)]
    s.grid, s.err = (nx, ny), ""
    return s


def multi(r):
    subs = [r.choice([S.opencv, S.pix4d])(r) for _ in range(r.randint(1, 4))]
    m = EarthOverheadSensorModel()
    m.set_point_calcs([s.calc for s in subs])
    m.set_projection(PROJS["utm18n"]())
    b = r.randrange(len(subs))
    s = S.Sensor({"k": "multi"}, m, m.get_projection())
    s.points = subs[b].points
    s.band, s.err = b, next((q.err for q in subs if q.err), "")
    return s


KINDS = [S.fpa, S.opencv, S.pix4d, S.rpc, S.geot, igm, multi]


def run(ctx):
    r = ctx.rng
    ctx.mc("Shape_MC", what="flattening and unflattening of every small shape keep each element at its place")
    for i in range(ctx.n(420, 8000)):
        s = KINDS[i % len(KINDS)](r)
        kind = s.desc["k"]
        case = ctx.case("%s-%d" % (kind, i), cams=[])
        if s.err:
            S.ev2(case, "lift", None, s.err, (), one=[[], []], tol=TOL, unchanged=True)
            continue
        calc = s.calc
        kw = {"band": s.band} if kind == "multi" else {}
        f = calc.lon_lat_alt_to_pixel_x_y
        for sh in ((), S.shape_for(r), (r.randint(2, 4), r.randint(2, 5))):
            cnt = int(np.prod(sh)) if sh else 1
            pts = s.points(r, cnt)
            a = [S.shaped([p[j] for p in pts], sh) for j in range(3)]
            if sh and r.random() < .2:       # non-contiguous inputs
                a = [np.asfortranarray(q) for q in a]
            keep = [np.array(q, copy=True) for q in a]
            one = []
            err1 = ""
            for p in pts:
                q, e = guard(f, *p, **kw)
                err1 = err1 or e
                one.append(q)
            res, err = guard(f, *a, **kw)
            same = all(np.array_equal(x, y) for x, y in zip(keep, a))
            wants = [[], []] if err1 else [[num(float(q[0])) for q in one], [num(float(q[1])) for q in one]]
            S.ev2(case, "lift", res, err or err1, sh, one=wants, tol=TOL, unchanged=same)
            # a single altitude for every point, and none at all
            z = r.choice([0., 12.25, pts[0][2], pts[-1][2]])
            full = z if sh == () else np.zeros(sh) + z
            w, e1 = guard(f, a[0], a[1], full, **kw)
            for zz in ([z, int(z)] if z == int(z) else [z]) + ([None] if z == 0 else []):
                g, e2 = guard(f, a[0], a[1], zz, **kw)
                S.ev2(case, "same", g, e1 or e2, sh, want=[[], []] if e1 else S.flat2(w), tol=TOL)
            # coordinates that happen to be whole numbers, in integer arrays
            if r.random() < .5:
                b = [np.rint(np.asarray(q)).astype(int) for q in a[:2]]
                c = [q.astype(float) for q in b]
                b, c = ([int(q) for q in b], [float(q) for q in c]) if sh == () else (b, c)
                full = z if sh == () else np.zeros(sh) + z
                w, e1 = guard(f, *c, full, **kw)
                g, e2 = guard(f, *b, r.choice([z, full]), **kw)
                S.ev2(case, "same", g, e1 or e2, sh, want=[[], []] if e1 else S.flat2(w), tol=TOL)
        # another projection gives the same pixels as reprojecting first
        sh = S.shape_for(r)
        cnt = int(np.prod(sh)) if sh else 1
        pts = s.points(r, cnt)
        a = [S.shaped([p[j] for p in pts], sh) for j in range(3)]
        native = calc.get_projection()
        others = [crs_defs.PROJ_4326] if kind in ("fpa",) else [crs_defs.PROJ_4326, crs_defs.PROJ_3857]
        if kind in ("rpc", "geot"):
            others = [crs_defs.PROJ_3857]
        other = r.choice(others)
        if other.srs == native.srs:
            other = crs_defs.PROJ_4326
        if kind in ("geot", "igm") and r.random() < .15:       # the same kind of coordinates on another datum; on its ellipsoid, as datums shift heights too
            a[2] = a[2] * 0
            other = Proj(proj="longlat", datum="NAD27") if native.crs.is_geographic else Proj(proj="utm", zone=18, datum="NAD27")
        wx, wy = transform(native, other, a[0], a[1])
        if not np.all(np.isfinite(wx)) or not np.all(np.isfinite(wy)):
            continue
        nx, ny = transform(other, native, wx, wy)
        if np.max(np.abs(np.asarray(nx) - a[0])) > 1e-3 or np.max(np.abs(np.asarray(ny) - a[1])) > 1e-3:
            continue                          # outside the projection's own domain
        if sh == ():
            wx, wy, nx, ny = float(wx), float(wy), float(nx), float(ny)
        w, e1 = guard(f, nx, ny, a[2], **kw)
        g, e2 = guard(f, wx, wy, a[2], other, **kw) if r.random() < .5 else guard(f, wx, wy, a[2], world_proj=other, **kw)
        S.ev2(case, "same", g, e1 or e2, sh, want=[[], []] if e1 else S.flat2(w), tol="1/100000")
        if r.random() < .5:                   # naming the native projection changes nothing
            g, e2 = guard(f, *a, world_proj=native, **kw)
            w, e1 = guard(f, *a, **kw)
            S.ev2(case, "same", g, e1 or e2, sh, want=[[], []] if e1 else S.flat2(w), tol="0")
        # direct inverses
        if kind in ("geot", "igm"):
            sh = S.shape_for(r)
            cnt = int(np.prod(sh)) if sh else 1
            lim = s.grid if kind == "igm" else (200, 200)
            px = [[r.randrange(lim[0]), r.randrange(lim[1])] for _ in range(cnt)]
            dt = int if kind == "igm" else float
            xs, ys = [dt(px[0][j]) if sh == () else np.array([p[j] for p in px], dtype=dt).reshape(sh) for j in (0, 1)]
            res, err = guard(calc.pixel_x_y_alt_to_lon_lat, xs, ys, 0)
            one = [guard(calc.pixel_x_y_alt_to_lon_lat, dt(p[0]), dt(p[1]), 0) for p in px]
            err = err or next((o[1] for o in one if o[1]), "")
            S.ev2(case, "lift", res, err, sh, one=[[], []] if err else [[num(float(o[0][j])) for o in one] for j in (0, 1)], tol="1/1000000000000", unchanged=True)
    ctx.judge("Sensor_Trace")
