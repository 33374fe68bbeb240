"""C16: obstruction masks flag the ground points whose line of sight is covered by terrain."""
from fractions import Fraction

import numpy as np

import dems as D
import sensors as S
from checks.c15 import place, sensor, shape
from vf import enc, guard, num
from resippy.image_objects.earth_overhead.earth_overhead_point_calculators.earth_overhead_sensor_model import EarthOverheadSensorModel
from resippy.image_objects.image_factory import ImageFactory
from resippy.photogrammetry import ortho_tools

ASSUMPTIONS = ["the pixels are where the given positions are imaged; without given heights these lie on the terrain", "the terrain lies below the sensor"]


def run(ctx):
    r = ctx.rng
    ctx.mc("RayCast_MC", what="sampling along a line of sight sees every stretch under the terrain longer than a step")
    for i in range(ctx.n(300, 4000)):
        s = sensor(r)
        if s.err or s.desc["k"] == "geot":
            continue
        cx, cy, w, gsd = place(r, s)
        v = s.M.T @ np.array([0, 0, -1.])
        tan = float(np.hypot(v[0], v[1]) / -v[2])
        h = r.uniform(60, 250)
        ux, uy = (-v[0] / np.hypot(v[0], v[1]), -v[1] / np.hypot(v[0], v[1])) if tan > .02 else (1., 0.)
        res = r.choice([None, max(.5, h * tan / r.uniform(6, 20))])
        if r.random() < .6 and tan > .05:
            t = D.narrow(r, cx, cy, (res or 5.) * r.choice([1, 2, 4]), h, float(ux), float(uy), h * tan, s.proj)
        else:
            k = r.randrange(3)
            t = D.constant(12.) if k == 0 else D.maxmin(r, cx, cy, max(h * tan, 20.), h, s.proj) if k == 1 else D.raster(r, cx, cy, max(h * tan, 20.) * 2, h, ctx.scratch)
        sh = shape(r)
        cnt = int(np.prod(sh))
        if s.desc["k"] == "fpa" and cnt > 1 and r.random() < .5:
            # far points looking over walls, seen together with points below the sensor
            far = s.pos[2] * r.uniform(.3, .6)
            th = r.uniform(0, 2 * np.pi)
            ux, uy = -np.cos(th), -np.sin(th)
            cx, cy, tan = s.pos[0] - far * ux, s.pos[1] - far * uy, far / (s.pos[2] - h)
            res = max(.5, h * tan / r.uniform(6, 20))
            t = D.narrow(r, cx, cy, res * r.choice([1, 1.3, 2]), h, float(ux), float(uy), h * tan, s.proj)
            lot = max(1, cnt // 3)
            pts = [[cx + r.uniform(-4, 4) * res, cy + r.uniform(-4, 4) * res] if j < lot else [s.pos[0] + r.uniform(-9, 9), s.pos[1] + r.uniform(-9, 9)] for j in range(cnt)]
            r.shuffle(pts)
        else:
            # ground points along the direction of the sensor and beside it
            pts = [[cx + ux * h * tan * a + r.uniform(-5, 5), cy + uy * h * tan * a + r.uniform(-5, 5)] for a in [r.uniform(-1, 1) for _ in range(cnt)]]
        gx, gy = np.array([p[0] for p in pts]), np.array([p[1] for p in pts])
        gz, lift = t.at(gx, gy), r.random()
        if lift < .12:                  # positions at sea level or anywhere about the terrain, given with their heights
            gz = np.zeros(cnt)
        elif lift < .24:
            gz = np.array([min(float(z) + r.uniform(-20, 20), t.hi) for z in gz])
        if t.desc["k"] == "mm" and r.random() < .4:
            D.abroad(r, t, s.proj)
        q, err = guard(s.calc.lon_lat_alt_to_pixel_x_y, gx, gy, gz)
        case = ctx.case("mask-%d" % i, cam=s.desc, terrain=t.desc)
        if err:
            case.ev("mask", err=err)
            continue
        s.calc.set_approximate_lon_lat_center(s.pos[0], s.pos[1])
        kw, calc = {}, s.calc
        if r.random() < .3:             # the second band of a sensor whose first looks elsewhere
            calc = EarthOverheadSensorModel()
            other = S.fpa(r, tilt=Fraction(1, 10), alt=900., via="local", proj=s.proj)
            calc.set_point_calcs([other.calc, s.calc])
            calc.set_projection(s.proj)
            calc.set_approximate_lon_lat_center(s.pos[0], s.pos[1])
            kw["band"] = 1
        im = ImageFactory.physical_camera.from_numpy_array_metadata_and_single_point_calc(None, None, calc)
        top = t.hi + .001
        up, err = guard(s.calc.pixel_x_y_alt_to_lon_lat, q[0], q[1], np.zeros(cnt) + top)
        if not err and not np.all(np.isfinite(up)) and np.all(np.isfinite(q)):
            continue                # the solver gives up (C06)
        far = 1. if err else float(np.max(np.hypot(up[0] - gx, up[1] - gy)))
        a = [np.array(z).reshape(sh) for z in (q[0], q[1], gx, gy, gz)]
        if lift < .24 or r.random() < .5:
            kw["alts"] = a[4]
        if res is not None:
            kw["dem_resolution"] = res
        m, err = guard(ortho_tools.are_pixels_obstructed_by_dem, im, a[0], a[1], a[2], a[3], t.dem, **kw)
        D.obs1(case, "mask", m, err, sh, pts=enc([[float(x), float(y), float(z)] for x, y, z in zip(gx, gy, gz)]), d=num(float(res or 5)),
               top=num(top), slope=num(t.slope), tol=num(.001 + t.slope * gsd * .1), first=num(.9 * (res or 5.) / max(far, 1e-6)))
        case.d["ev"][-1]["m"] = case.d["ev"][-1].pop("r")
    ctx.judge("RayCast_Trace")
