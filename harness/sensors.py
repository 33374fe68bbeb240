"""Builds real sensors together with their description for the specification (Camera.tla)."""
import math
import os
from fractions import Fraction

import gdal
import numpy as np
from pyproj import Proj, transform

from geo import UNITS_ANGLE, half_angle, random_tan, rat
from imgdrv import PROJS
from vf import enc, guard, num
from resippy.utils import photogrammetry_utils as pu
from resippy.photogrammetry import crs_defs
import resippy.image_objects.earth_overhead.earth_overhead_point_calculators.ideal_pinhole_fpa_local_utm_point_calc as m_fpa
import resippy.image_objects.earth_overhead.earth_overhead_point_calculators.opencv_point_calc as m_cv
import resippy.image_objects.earth_overhead.earth_overhead_point_calculators.pix4d_point_calc as m_p4
import resippy.image_objects.earth_overhead.earth_overhead_point_calculators.rpc_point_calc as m_rpc
import resippy.image_objects.earth_overhead.earth_overhead_point_calculators.geotiff_point_calc as m_geo

LEN = {"meters": 1., "meter": 1., "m": 1., "centimeters": .01, "cm": .01, "millimeters": 1e-3, "mm": 1e-3,
       "micrometers": 1e-6, "microns": 1e-6, "um": 1e-6, "kilometers": 1e3, "km": 1e3, "feet": .3048, "inches": .0254}


def mat(t):
    """Float roll-pitch-yaw matrix, used only to place points in front of the camera."""
    w, p, k = [half_angle(x) for x in t]
    rx = np.array([[1, 0, 0], [0, math.cos(w), math.sin(w)], [0, -math.sin(w), math.cos(w)]])
    ry = np.array([[math.cos(p), 0, -math.sin(p)], [0, 1, 0], [math.sin(p), 0, math.cos(p)]])
    rz = np.array([[math.cos(k), math.sin(k), 0], [-math.sin(k), math.cos(k), 0], [0, 0, 1]])
    return rz @ ry @ rx


class Sensor:
    reach = .9          # how far out of a polynomial camera's normalised cube its points lie
    behind = 0.         # share of points behind a frame camera

    def __init__(self, desc, calc, proj, pos=None, M=None, half=None, height=None):
        self.desc, self.calc, self.proj = desc, calc, proj
        self.pos, self.M, self.half, self.height = pos, M, half, height

    def points(self, r, n):
        """n world points: in front of a frame camera, inside the normalised cube of a polynomial one."""
        if self.desc["k"] == "rpc":
            d = self.desc
            f = lambda o, s: float(Fraction(d[o])) + r.uniform(-self.reach, self.reach) * float(Fraction(d[s]))
            return [[f("lonoff", "lonscale"), f("latoff", "latscale"), f("hoff", "hscale")] for _ in range(n)]
        if self.desc["k"] == "geot":
            g = self.calc.get_geot()
            out = []
            for _ in range(n):
                x, y = r.uniform(-20, 120), r.uniform(-20, 120)
                out.append([g[0] + x * g[1] + y * g[2], g[3] + x * g[4] + y * g[5], r.uniform(-50, 500)])
            return out
        out = []
        for _ in range(n):
            depth = 10 ** r.uniform(1.7, 3.7)
            s = self.half * 1.3
            q = np.array([r.uniform(-s, s), r.uniform(-s, s), -1.]) * depth * (-1 if r.random() < self.behind else 1)
            out.append([float(v) for v in np.array(self.pos) + self.M.T @ q])
        return out

    def ground(self, r, n, alts):
        """World points seen by the camera at the given altitudes (frame cameras)."""
        out = []
        for a in alts[:n]:
            q = self.M.T @ np.array([r.uniform(-self.half, self.half), r.uniform(-self.half, self.half), -1.])
            k = (a - self.pos[2]) / q[2]
            out.append([float(self.pos[0] + k * q[0]), float(self.pos[1] + k * q[1]), float(a)])
        return out


def angle_args(r, t, names, units=True):
    """Angle values with random units (radians as the default)."""
    kw, v = {}, []
    for x, n in zip(t, names):
        u = r.choice(list(UNITS_ANGLE)) if units and r.random() < .6 else None
        if u:
            kw[n] = u
        v.append(half_angle(x) * UNITS_ANGLE[u or "radians"])
    return v, kw


def tans(r, tilt=None):
    """Roll, pitch, yaw half-angle tangents; tilt bounds roll and pitch."""
    if tilt is None:
        return [random_tan(r) for _ in range(3)]
    return [random_tan(r, tilt), random_tan(r, tilt), random_tan(r)]


def fpa(r, tilt=None, via=None, simple=False, alt=None, proj=None, npix=None, yaw=None):
    t = tans(r, tilt)
    if yaw is not None:
        t[2] = yaw
    ang, kw = angle_args(r, t, ["omega_units", "phi_units", "kappa_units"], not simple)
    nx, ny = npix or (r.randint(1, 4000), r.randint(1, 3000))
    fl = 10 ** r.uniform(.7, 2.5)                        # mm
    half = 10 ** r.uniform(-2, -.3)                      # tangent of the half field of view
    ppx = fl * 1e3 * half * 2 / max(nx, ny)              # um
    ppy = ppx * r.choice([1, 1, r.uniform(.5, 2)])
    z = alt if alt is not None else r.choice([r.uniform(-100, 9000), float(r.randint(50, 5000))])
    zu = fu = pxu = pyu = None
    if not simple:
        zu = r.choice([None, "meters", "feet", "km", "cm"])
        fu = r.choice([None, "mm", "cm", "meters", "inches"])
        pxu, pyu = r.choice([None, "um", "mm", "micrometers", "microns"]), r.choice([None, "um", "mm", "inches"])
    zv = z / LEN[zu or "meters"]
    fv = fl * 1e-3 / LEN[fu or "mm"]
    pxv, pyv = ppx * 1e-6 / LEN[pxu or "um"], ppy * 1e-6 / LEN[pyu or "um"]
    for k, u in (("alt_units", zu), ("focal_length_units", fu), ("pixel_pitch_x_units", pxu), ("pixel_pitch_y_units", pyu)):
        if u:
            kw[k] = u
    fx, fy = (r.random() < .5, r.random() < .5)
    if r.random() < .3:
        fx = fy = False
    else:
        kw["flip_x"], kw["flip_y"] = fx, fy
    desc = {"k": "fpa", "z": num(zv), "zu": zu or "meters", "t": [rat(q) for q in t], "f": num(fv), "fu": fu or "mm",
            "ppx": num(pxv), "ppxu": pxu or "um", "ppy": num(pyv), "ppyu": pyu or "um", "nx": nx, "ny": ny, "flipx": fx, "flipy": fy}
    via = via or r.choice(["local", "wgs84"])
    extra = None
    if via == "local":
        proj = proj or PROJS[r.choice(["utm18n", "webmerc", "utm33s", "tmerc"])]()
        x, y = r.uniform(3e5, 7e5), r.uniform(1e6, 6e6)
        calc, err = guard(m_fpa.IdealPinholeFpaLocalUtmPointCalc.init_from_local_params, x, y, zv, proj, *ang, nx, ny, pxv, pyv,
                          fv, **kw)
    else:
        lon, lat = r.choice([(r.uniform(-179.9, 179.9), r.uniform(-79, 55)), (float(r.randint(-30, 29) * 6 + 3 + r.choice([-3, -2.999999, 2.999999])), r.uniform(-60, 50)),
                             (r.uniform(-179, 179), r.choice([0., 1e-7, -1e-7, 25.]))])
        calc, err = guard(m_fpa.IdealPinholeFpaLocalUtmPointCalc.init_from_wgs84_params, lon, lat, zv, *ang, nx, ny, pxv, pyv,
                          fv, **kw)
        cands = []
        z0 = int(math.floor((lon + 180) / 6)) + 1
        for zone in (z0 - 1, z0, z0 + 1):
            if 1 <= zone <= 60:
                for south in (False, True):
                    p = Proj(proj="utm", ellps="WGS84", zone=zone, south=south)
                    cx, cy = p(lon, lat)
                    if math.isfinite(cx) and math.isfinite(cy):
                        cands.append({"zone": zone, "south": south, "v": [num(cx), num(cy)]})
        right = Proj(proj="utm", ellps="WGS84", zone=z0, south=lat < 0)
        x, y = transform(crs_defs.PROJ_4326, right, lon, lat)
        extra = {"lon": num(lon), "lat": num(lat), "cands": cands}
        proj = None if err else calc.get_projection()
        if not err:
            extra["v"] = [num(v) for v in proj(lon, lat)]
    desc["x"], desc["y"] = num(x), num(y)
    s = Sensor(desc, calc, proj, [x, y, z], mat(t), half)
    s.err, s.utm = err, extra
    return s


def _dist(r, scale):
    k = r.randrange(4)
    if k == 0:
        return [0., 0., 0., 0., 0.]
    v = [r.uniform(-.2, .2) * scale, r.uniform(-.2, .2) * scale, r.uniform(-.2, .2) * scale, r.uniform(-.02, .02) * scale, r.uniform(-.02, .02) * scale]
    if k == 1:       # a single coefficient
        j = r.randrange(5)
        v = [x if i == j else 0. for i, x in enumerate(v)]
    return v


def opencv(r, tilt=None, mild=False, alt=None, npix=None):
    t, bt = tans(r, tilt), tans(r, tilt if tilt is None else Fraction(tilt) / 4)
    if r.random() < .3:
        bt = [Fraction(0)] * 3
    nx, ny = npix or (1280, 960)
    half = r.uniform(.1, .5)
    fx = max(nx, ny) / 2 / half
    fy = fx * r.choice([1., r.uniform(.8, 1.2)])
    cx, cy = nx / 2 + r.uniform(-20, 20) * nx / 1280, ny / 2 + r.uniform(-20, 20) * ny / 960
    k1, k2, k3, p1, p2 = _dist(r, .3 if mild else 1)
    z = alt if alt is not None else r.uniform(50, 3000)
    xyz = [r.uniform(3e5, 7e5), r.uniform(1e6, 6e6), z]
    arm = [r.uniform(-2, 2) for _ in range(3)] if r.random() < .7 else [0., 0., 0.]
    b = [half_angle(q) for q in bt]
    params = {"fx_pixels": fx, "fy_pixels": fy, "cx_pixels": cx, "cy_pixels": cy, "k1": k1, "k2": k2, "k3": k3, "p1": p1, "p2": p2,
              "pixel_pitch_microns": 3.75, "x_offset_meters": arm[0], "y_offset_meters": arm[1], "z_offset_meters": arm[2],
              "omega_offset_radians": b[0], "phi_offset_radians": b[1], "kappa_offset_radians": b[2]}

    def build():
        c = m_cv.OpenCVPointCalc.init_from_params(params)
        if r.random() < .3:         # re-initialised with another pose first
            c.init_extrinsic(1., 2., 3., .1, .2, .3)
        if r.random() < .2:         # mounted otherwise first
            c.init_offsets(1., -2., 3., .1, -.2, .3)
            c.init_offsets(*arm, *b)
        c.init_extrinsic(*xyz, *[half_angle(q) for q in t])
        c.set_approximate_lon_lat_center(xyz[0], xyz[1])
        return c
    calc, err = guard(build)
    M = mat(bt) @ mat(t)
    pos = np.array(xyz) + np.array(arm) @ mat(t)
    desc = {"k": "opencv", "xyz": enc(xyz), "t": [rat(q) for q in t], "arm": enc(arm), "bt": [rat(q) for q in bt],
            "fx": num(fx), "fy": num(fy), "cx": num(cx), "cy": num(cy), "k1": num(k1), "k2": num(k2), "k3": num(k3), "p1": num(p1), "p2": num(p2)}
    s = Sensor(desc, calc, None if err else calc.get_projection(), [float(v) for v in pos], M, half)
    s.err, s.bore = err, mat(bt)
    s.place = lambda xyz, t, arm=arm: [float(v) for v in np.array(xyz) + np.array(arm) @ mat(t)]
    s.pose = xyz, t
    s.params = params
    return s


def pix4d(r, tilt=None, mild=False, alt=None, proj=None, npix=None, key=None, master=None):
    t = tans(r, tilt)
    M = pu.create_M_matrix(*[half_angle(q) for q in t])
    nx, ny = npix or (r.randint(200, 2000), r.randint(200, 1500))
    half = r.uniform(.1, .5)
    w = r.uniform(3, 40)                                   # sensor width, mm
    fl = w * max(nx, ny) / nx / 2 / half
    ppx, ppy = w / 2 + r.uniform(-.05, .05) * w, w * ny / nx / 2 + r.uniform(-.05, .05) * w
    k1, k2, k3, p1, p2 = _dist(r, .3 if mild else 1)
    z = alt if alt is not None else r.uniform(50, 3000)
    xyz = [r.uniform(3e5, 7e5), r.uniform(1e6, 6e6), z]
    model = r.choice(["regular", "regular", None])
    proj = proj or PROJS[r.choice(["utm18n", "utm33s"])]()
    key = key or "IMG_%d.tif" % r.randint(0, 999)
    master = {} if master is None else master
    master["projection"] = proj
    master[key] = {"camera_rotation_r": M.copy(), "external_params": xyz + [1., 2., 3.], "n_x_pixels": nx, "n_y_pixels": ny,
                   "internal_params": {"F": fl, "Px": ppx, "Py": ppy, "fpa_width_mm": w, "fpa_height_mm": w * ny / nx},
                   "radial_distortion": [k1, k2, k3], "tangential_distortion": [p1, p2]}

    def build():
        name = r.choice([key, "/data/run/" + key])
        a = (name, master) if model == "regular" and r.random() < .5 else (name, master, model)
        c = m_p4.Pix4dPointCalc.init_from_params(*a)
        return c
    calc, err = guard(build)
    rx = ry = True
    if not err and r.random() < .2:
        rx, ry = r.random() < .5, r.random() < .5
        calc.reverse_x_pixels, calc.reverse_y_pixels = rx, ry
    desc = {"k": "pix4d", "xyz": enc(xyz), "m": enc(M.ravel()), "nx": nx, "fpaw": num(w), "f": num(fl), "px": num(ppx), "py": num(ppy),
            "model": str(model), "rd": enc([k1, k2, k3]), "td": enc([p1, p2]), "revx": rx, "revy": ry}
    s = Sensor(desc, calc, proj, xyz, M, half)
    s.err = err
    return s


def rpc(r, scratch=None, strong=True, wide=False):
    e = .05 if strong else 1e-3
    q = lambda x: float("%.9g" % x)
    small = lambda: [q(r.uniform(-e, e)) for _ in range(20)]
    sn, sd, ln, ld = small(), small(), small(), small()
    if strong and r.random() < .3:        # one cubic term at a time
        j = r.randrange(4, 20)
        for v in (sn, sd, ln, ld):
            for i in range(20):
                v[i] = v[i] if i == j else 0.
    sd[0], ld[0] = 1., 1.
    sn[1] = q(r.uniform(.7, 1.2) * r.choice([-1, 1]))
    ln[2] = q(r.uniform(.7, 1.2) * r.choice([-1, 1]))
    o = {"SAMP_SCALE": q(r.uniform(100, 20000)), "SAMP_OFF": q(r.uniform(0, 20000)), "LINE_SCALE": q(r.uniform(100, 20000)),
         "LINE_OFF": q(r.uniform(0, 20000)), "LAT_SCALE": q(r.uniform(.01, .5)), "LAT_OFF": q(r.uniform(-60, 60)),
         "LONG_SCALE": q(r.uniform(.01, .5)), "LONG_OFF": q(r.uniform(-170, 170)), "HEIGHT_SCALE": q(r.uniform(100, 1000)),
         "HEIGHT_OFF": q(r.uniform(-50, 900))}
    if wide:
        o["LONG_SCALE"], o["LAT_SCALE"], o["HEIGHT_SCALE"] = q(r.uniform(20, 120)), q(r.uniform(10, 60)), q(r.uniform(1000, 9000))
    via = r.choice(["array", "list", "text"]) if scratch is None else "file"
    C = m_rpc.RPCPointCalc

    def build():
        if via == "file":
            p = os.path.join(scratch, "rpc_%d.tif" % r.randrange(10 ** 9))
            ds = gdal.GetDriverByName("GTiff").Create(p, 2, 2, 1)
            s = lambda v: " ".join("%.15g" % x for x in v)
            md = {k: "%.15g" % v for k, v in o.items()}
            md.update({"SAMP_NUM_COEFF": s(sn), "SAMP_DEN_COEFF": s(sd), "LINE_NUM_COEFF": s(ln), "LINE_DEN_COEFF": s(ld)})
            ds.SetMetadata(md, "RPC")
            ds = None
            return C.init_from_file(p)
        cv = {"array": np.array, "list": list, "text": lambda v: C._str_to_numpy_arr(" ".join(repr(x) for x in v))}[via]
        return C.init_from_coeffs(cv(sn), cv(sd), o["SAMP_SCALE"], o["SAMP_OFF"], cv(ln), cv(ld), o["LINE_SCALE"], o["LINE_OFF"],
                                  o["LAT_SCALE"], o["LAT_OFF"], o["LONG_SCALE"], o["LONG_OFF"], o["HEIGHT_SCALE"], o["HEIGHT_OFF"])
    calc, err = guard(build)
    desc = {"k": "rpc", "sn": enc(sn), "sd": enc(sd), "ln": enc(ln), "ld": enc(ld), "sscale": num(o["SAMP_SCALE"]), "soff": num(o["SAMP_OFF"]),
            "lscale": num(o["LINE_SCALE"]), "loff": num(o["LINE_OFF"]), "latscale": num(o["LAT_SCALE"]), "latoff": num(o["LAT_OFF"]),
            "lonscale": num(o["LONG_SCALE"]), "lonoff": num(o["LONG_OFF"]), "hscale": num(o["HEIGHT_SCALE"]), "hoff": num(o["HEIGHT_OFF"])}
    s = Sensor(desc, calc, crs_defs.PROJ_4326)
    s.err = err
    return s


def geot(r, g=None, proj=None, npix=None):
    if g is None:
        k = r.randrange(4)
        if k == 0:
            g = [r.uniform(-180, 180), 10 ** r.uniform(-5, -2), 0., r.uniform(-80, 80), 0., -10 ** r.uniform(-5, -2)]
        elif k == 1:
            g = [r.uniform(2e5, 8e5), r.uniform(.1, 30), 0., r.uniform(1e6, 5e6), 0., r.uniform(-30, 30)]
        elif k == 2:
            a, s1, s2 = r.uniform(0, 6.28), r.uniform(.1, 10), r.uniform(.1, 10)
            g = [r.uniform(2e5, 8e5), s1 * math.cos(a), s2 * math.sin(a), r.uniform(1e6, 5e6), s1 * math.sin(a), -s2 * math.cos(a)]
        else:
            g = [r.uniform(2e5, 8e5), r.uniform(1, 5), r.uniform(-.5, .5), r.uniform(1e6, 5e6), r.uniform(-.5, .5), r.choice([-1, 1]) * r.uniform(1, 5)]
    c = m_geo.GeotiffPointCalc()
    nx, ny = npix or (r.randint(1, 300), r.randint(1, 300))

    def build():
        c.set_projection(proj or PROJS["wgs84" if abs(g[0]) <= 180 else "utm18n"]())
        if r.random() < .4:       # the last geotransform counts
            near = [v + d for v, d in zip(g, (6 * g[1], 0, 0, -3 * g[5], 0, 0))]      # a shift by a few pixels
            bend = [v * k for v, k in zip(g, (1, 1 + 1e-6, 1, 1, 1, 1 - 1e-6))]
            c.set_geot(r.choice([[0., 1., 0., 0., 0., -1.], near, bend]))
        c.set_geot(r.choice([list, np.array])(g))
        c.set_npix_x(nx)
        c.set_npix_y(ny)
        return c
    calc, err = guard(build)
    s = Sensor({"k": "geot", "g": enc([float(v) for v in g])}, calc, None if err else calc.get_projection())
    s.err, s.npix = err, (nx, ny)
    return s


# ---- recording
_made = [0]


def shaped(v, sh):
    """The values in an array of the given shape, now and then not stored row by row."""
    if sh == ():
        return float(v[0])
    a = np.array(v, dtype=float).reshape(sh)
    _made[0] += 1
    if a.ndim == 2 and _made[0] % 7 == 3:
        return np.asfortranarray(a)
    if _made[0] % 11 == 5:
        return np.repeat(a, 2, axis=-1)[..., ::2]
    return a


def shapes(res):
    """Shapes of the two returned arrays; scalars have the empty shape."""
    return [list(np.shape(q)) for q in res]


def flat2(res):
    return [[num(float(v)) for v in np.ravel(q)] for q in res]


def two(res):
    try:
        return len(res) == 2
    except TypeError:
        return False


def ev2(case, op, res, err, sh, **k):
    """Record a two-array result."""
    if not err and not two(res):
        err = "not-a-pair"
    if not err:
        try:
            r, osh = flat2(res), shapes(res)
        except Exception as x:
            err = "unreadable-result"
    if err:
        r, osh = [[], []], []
    return case.ev(op, err=err, r=r, osh=osh, sh=list(sh), **k)


def shape_for(r, n=None):
    return r.choice([(), (1,), (r.randint(2, 6),), (r.randint(1, 4), r.randint(1, 4)), (1, r.randint(2, 5)), (r.randint(2, 5), 1)])


def px_event(case, r, s, b=1, n=None, sh=None, band=None, calc=None, world=None):
    sh = shape_for(r) if sh is None else sh
    cnt = int(np.prod(sh)) if sh else 1
    pts = s.points(r, cnt)
    a = [shaped([p[j] for p in pts], sh) for j in range(3)]
    kw = {} if band is None else {"band": band}
    res, err = guard((calc or s.calc).lon_lat_alt_to_pixel_x_y, a[0], a[1], a[2], **kw)
    ev2(case, "px", res, err, sh, b=b, pts=enc(pts))
    return a, res, err
