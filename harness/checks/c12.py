"""C12: multi-band sensors answer each band with that band's own calculator."""
from fractions import Fraction

import numpy as np

import sensors as S
from imgdrv import PROJS
from vf import enc, guard, num
from resippy.image_objects.earth_overhead.earth_overhead_point_calculators.earth_overhead_sensor_model import EarthOverheadSensorModel
from resippy.image_objects.earth_overhead.micasense.micasense_image_factory import MicasenseImageFactory

ASSUMPTIONS = ["queries name an existing band", "calculators of one sensor share a projection"]
TILT = Fraction(1, 20)


def query(case, r, m, sub, ids, proj):
    """Ask one band for pixels and for positions, and every calculator for the same."""
    k = r.randrange(len(ids))
    if k + 1 > len(ids):
        return
    sh = S.shape_for(r)
    cnt = int(np.prod(sh)) if sh else 1
    pts = sub[ids[k]].points(r, cnt)
    a = [S.shaped([p[j] for p in pts], sh) for j in range(3)]
    alone = []
    for s in sub[1:]:
        q, e = guard(s.calc.lon_lat_alt_to_pixel_x_y, *a)
        alone.append([[], []] if e or not S.two(q) else S.flat2(q))
    res, err = guard(m.lon_lat_alt_to_pixel_x_y, *a, band=k)
    S.ev2(case, "query", res, err, sh, k=k + 1, pts=enc(pts), alone=alone)
    direct = all(s.desc["k"] == "geot" for s in sub[1:])
    s = sub[ids[k]]
    if direct:
        alt = 0.
        px = [[float(r.randint(0, 99)), float(r.randint(0, 99))] for _ in range(cnt)]
    else:
        alt = s.pos[2] - r.uniform(.5, .9) * 1000
        g = s.ground(r, cnt, [alt] * cnt)
        q, e = guard(s.calc.lon_lat_alt_to_pixel_x_y, *[np.array([p[j] for p in g]) for j in range(3)])
        if e:
            return
        px = [[float(q[0][j]), float(q[1][j])] for j in range(cnt)]
    xs, ys = S.shaped([p[0] for p in px], sh), S.shaped([p[1] for p in px], sh)
    m.set_approximate_lon_lat_center(*(s.pos[:2] if s.pos else (0, 0)))
    res, err = guard(m.pixel_x_y_alt_to_lon_lat, xs, ys, alt, band=k)
    al = []
    if direct:
        for q in sub[1:]:
            w, e = guard(q.calc.pixel_x_y_alt_to_lon_lat, xs, ys, alt)
            al.append([[], []] if e else S.flat2(w))
    S.ev2(case, "inverse", res, err, sh, k=k + 1, px=enc(px), alt=num(alt), direct=al)


def subs(r, n):
    """n calculators (ids from 1), of mixed kinds over one place."""
    z = 1500.
    proj = PROJS["utm18n"]()
    if r.random() < .2:
        out = []
        for _ in range(n):
            out.append(S.geot(r, g=[4e5 + r.uniform(0, 9), 2., .1, 4e6, .2, -2.], proj=proj))
        return [None] + out, proj
    out = []
    for _ in range(n):
        k = r.randrange(3)
        s = S.fpa(r, tilt=TILT, via="local", alt=z, proj=proj) if k == 0 else \
            (S.opencv(r, tilt=TILT, mild=True, alt=z) if k == 1 else S.pix4d(r, tilt=TILT, mild=True, alt=z, proj=proj))
        out.append(s)
    return [None] + out, proj


def run(ctx):
    r = ctx.rng
    behs = ctx.mc("SensorModel_MC", what="all histories of 3 assemblies over 3 calculators; each band keeps the calculator last put there")
    ctx.notes["spec_behaviours_total"] = len(behs)
    pick = behs if ctx.thorough else r.sample(behs, 120)
    for i, b in enumerate(pick):
        sub, proj = subs(r, 3)
        case = ctx.case("spec-%d" % i, cams=[s.desc for s in sub[1:]])
        if any(s.err for s in sub[1:]):
            case.ev("coreg", err="construction", got=True)
            continue
        m = EarthOverheadSensorModel()
        m.set_projection(proj)
        ids = []
        for a in b:
            if a["a"] == "set":
                _, err = guard(m.set_point_calcs, [sub[k].calc for k in a["ids"]])
                ids = list(a["ids"])
                case.ev("set", ids=ids[:], err=err)
            elif a["a"] == "add":
                _, err = guard(m.add_point_calc, sub[a["id"]].calc)
                ids.append(a["id"])
                case.ev("add", id=a["id"], err=err)
            else:
                _, err = guard(m.update_point_calc, a["k"] - 1, sub[a["id"]].calc)
                ids[a["k"] - 1] = a["id"]
                case.ev("upd", k=a["k"], id=a["id"], err=err)
            if r.random() < .3:
                query(case, r, m, sub, ids, proj)
        got, err = guard(lambda: [next((j for j in range(1, len(sub)) if sub[j].calc is m.get_point_calc(q)), 0) for q in range(m.get_num_point_calcs())])
        case.ev("members", ids=got or [], n=len(got or []), err=err)
        for _ in range(2):
            query(case, r, m, sub, ids, proj)
        if r.random() < .3:     # every member is told about the sensor's new projection
            other = PROJS[r.choice(["webmerc", "wgs84"])]()
            got, err = guard(lambda: [m.set_projection(other), [c.get_projection().srs for c in [m] + list(m.get_point_calcs())]][1])
            case.ev("proj", got=got or [], want=other.srs, n=len(ids), err=err)
    # five-band images of the factory
    for i in range(ctx.n(30, 400)):
        r2 = r
        via = r.choice(["pix4d", "opencv"])
        names = ["IMG_%04d_%d.tif" % (r.randint(0, 99), k) for k in range(1, 6)]
        stem = names[0][:-6]
        names = ["%s_%d.tif" % (stem, k) for k in range(1, 6)]
        order = list(range(5))
        r.shuffle(order)
        proj = PROJS["utm18n"]()
        master, sub = {}, [None]
        for k in range(5):
            sub.append(S.pix4d(r, tilt=TILT, mild=True, alt=1500., proj=proj, key=names[k], master=master) if via == "pix4d"
                       else S.opencv(r, tilt=TILT, mild=True, alt=1500.))
        at = r.choice(["/data/", "/data.7/", "/flight_3.x/", ""])
        fn = {"band%d" % (k + 1): at + names[k] for k in range(5)}
        if via == "pix4d":
            for s in sub[1:]:       # the factory's cameras use the regular model and reversed pixels
                s.desc.update(model="regular", revx=True, revy=True)
                s.calc.distortion_model, s.calc.reverse_x_pixels, s.calc.reverse_y_pixels = "regular", True, True
            im, err = guard(MicasenseImageFactory.from_image_number_and_pix4d, fn, master)
        else:
            params = [dict(sub[k + 1].params, band_number=k + 1) for k in order]
            im, err = guard(MicasenseImageFactory.from_image_number_and_opencv, fn, params)
        case = ctx.case("micasense-%s-%d" % (via, i), cams=[s.desc for s in sub[1:]])
        case.ev("set", ids=[1, 2, 3, 4, 5], err=err)
        if err:
            continue
        m = im.get_point_calculator()
        if via == "opencv":
            for k in range(5):
                c = m.get_point_calc(k)
                s = sub[k + 1]
                c.init_extrinsic(*[float(Fraction(str(v))) for v in s.desc["xyz"]], *[S.half_angle(q) for q in s.desc["t"]])
        got, err = guard(lambda: m.bands_coregistered())
        case.ev("coreg", err=err, got=bool(got))
        for _ in range(3):
            query(case, r, m, sub, [1, 2, 3, 4, 5], proj)
    ctx.judge("SensorModel_Trace")
