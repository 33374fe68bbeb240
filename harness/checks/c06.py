"""C06: the world position of a pixel at an altitude maps back to that pixel."""
from fractions import Fraction

import numpy as np
from pyproj import transform

import sensors as S
from geo import rat
from vf import enc, guard, num
from resippy.photogrammetry import crs_defs

ASSUMPTIONS = ["cameras tilt at most about 35 degrees, distortion is mild, ground lies at least 5 percent of the flying height below the camera (the default iteration limit is then never reached)",
               "for cameras tilted up to 57 degrees with any distortion: where an iteration limit of 60 and one of 61 give the same finite positions, the limit was not reached"]
TILT = Fraction(3, 20)


def run(ctx):
    r = ctx.rng
    ctx.mc("Newton_MC", what="one Newton step is exact for affine sensors whatever the axes; a vertical pinhole is affine at an altitude")
    for i in range(ctx.n(450, 6000)):
        z = r.uniform(100, 4000)
        k = r.randrange(3)
        turned = dict(tilt=Fraction(0), yaw=Fraction(r.choice([1, -1]))) if r.random() < .3 else dict(tilt=TILT)     # axes exactly swapped
        s = S.fpa(r, alt=z, **turned) if k == 0 else (S.opencv(r, tilt=TILT, mild=True, alt=z) if k == 1 else S.pix4d(r, tilt=TILT, mild=True, alt=z))
        case = ctx.case("%s-%d" % (s.desc["k"], i), cams=[s.desc])
        if s.err:
            S.ev2(case, "inv", None, s.err, (), b=1, px=[], alts=[], tol=1)
            continue
        for _ in range(r.randint(1, 2)):
            sh = S.shape_for(r)
            cnt = int(np.prod(sh)) if sh else 1
            mode = r.choice(["scalar", "each"])
            a0 = r.uniform(-.2, .9) * z
            alts = [a0] * cnt if mode == "scalar" else [r.uniform(-.2, .9) * z for _ in range(cnt)]
            pts = s.ground(r, cnt, alts)
            # pixels of those ground points, moved off them so that nothing is exact
            p, err = guard(s.calc.lon_lat_alt_to_pixel_x_y, *[np.array([q[j] for q in pts]) for j in range(3)])
            if err:
                S.ev2(case, "inv", None, err, sh, b=1, px=[], alts=[], tol=1)
                continue
            px = [[float(p[0][j]) + r.uniform(-.5, .5), float(p[1][j]) + r.uniform(-.5, .5)] for j in range(cnt)]
            if r.random() < .3:
                px = [[float(round(x)), float(round(y))] for x, y in px]
            xs, ys = S.shaped([q[0] for q in px], sh), S.shaped([q[1] for q in px], sh)
            av = a0 if mode == "scalar" else S.shaped(alts, sh)
            tol = r.choice([None, .01, .1, 1e-4])
            kw = {} if tol is None else {"pixel_error_threshold": tol}
            res, err = guard(s.calc.pixel_x_y_alt_to_lon_lat, xs, ys, av, **kw)
            S.ev2(case, "inv", res, err, sh, b=1, px=enc(px), alts=enc(alts), tol=rat(Fraction(repr(tol or .01)) + Fraction(1, 10 ** 6)))
            if not err and r.random() < .3:
                other = crs_defs.PROJ_4326
                res2, err = guard(s.calc.pixel_x_y_alt_to_lon_lat, xs, ys, av, other, **kw)
                S.ev2(case, "same", res2, err, sh, want=S.flat2(transform(s.calc.get_projection(), other, res[0], res[1])), tol="1/1000000000")
    for i in range(ctx.n(150, 3000)):
        z = r.uniform(100, 4000)
        k, tilt = r.randrange(3), Fraction(r.choice([5, 7, 9, 11, 11]), 20)
        s = S.fpa(r, alt=z, tilt=tilt) if k == 0 else (S.opencv if k == 1 else S.pix4d)(r, tilt=tilt, mild=r.random() < .5, alt=z)
        case = ctx.case("oblique-%d" % i, cams=[s.desc])
        sh = S.shape_for(r)
        cnt = int(np.prod(sh)) if sh else 1
        alts = [r.uniform(-.2, .9) * z] * cnt if r.random() < .5 else [r.uniform(-.2, .9) * z for _ in range(cnt)]
        p, err = (None, s.err) if s.err else guard(s.calc.lon_lat_alt_to_pixel_x_y, *[np.array([q[j] for q in s.ground(r, cnt, alts)]) for j in range(3)])
        if err:
            S.ev2(case, "inv", None, err, sh, b=1, px=[], alts=[], tol=1)
            continue
        px = [[float(p[0][j]), float(p[1][j])] for j in range(cnt)]
        a = [S.shaped([q[0] for q in px], sh), S.shaped([q[1] for q in px], sh), S.shaped(alts, sh)]
        tol = r.choice([.01, .1, 1e-4])
        n = r.choice([60, 60, 60, 12])
        got, err = guard(s.calc.pixel_x_y_alt_to_lon_lat, *a, pixel_error_threshold=tol, max_iter=n)
        more, err2 = guard(s.calc.pixel_x_y_alt_to_lon_lat, *a, pixel_error_threshold=tol, max_iter=n + 1)
        S.ev2(case, "settled", got, err or err2, sh, b=1, px=enc(px), alts=enc(alts), tol=rat(Fraction(repr(tol)) + Fraction(1, 10 ** 6)), more=S.flat2(more) if not err2 else [[], []])
    ctx.judge("Sensor_Trace")
