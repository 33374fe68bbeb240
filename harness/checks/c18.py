"""C18: image ground extents enclose exactly the imaged ground."""
import math

import numpy as np

import dems as D
import orthos as O
import sensors as S
import splines
from geo import reproject
from imgdrv import PROJS
from pyproj import Proj
from vf import enc, guard, num
from resippy.photogrammetry import ortho_tools

ASSUMPTIONS = ["the camera looks down at flat terrain from above", "no imaged point outside the frame: undistorted cameras and affine georeferences",
               "native coordinates in metres in the local UTM zone for a default full orthorectification"]


def undistorted(s):
    d = s.desc
    if d["k"] in ("fpa", "geot"):
        return True
    if d["k"] == "opencv":
        return all(d[n] == 0 for n in ("k1", "k2", "k3", "p1", "p2"))
    return d["model"] == "None" or all(v == 0 for v in d["rd"] + d["td"])


def test_points(r, sc, z, poly):
    """Ground points about the outline: near its edges, inside, outside."""
    out = []
    c = np.mean(np.array(poly), axis=0)
    for _ in range(24):
        k = r.randrange(len(poly) - 1)
        a, b, t = np.array(poly[k]), np.array(poly[k + 1]), r.random()
        p = a + (b - a) * t
        f = 1 + r.choice([-1, 1]) * 10 ** r.uniform(-3, -.5)
        out.append([float(v) for v in c + (p - c) * f])
    for _ in range(6):
        out.append([sc.cx + r.uniform(-1.3, 1.3) * sc.w, sc.cy + r.uniform(-1.3, 1.3) * sc.w])
    return out


def extent(case, ctx, r, sc, im, t, bands):
    kw = {}
    if t.desc["z"] != 0 or r.random() < .5:
        kw["dem"] = t.dem
    if bands is not None:
        kw["bands"] = bands
    ex, err = guard(ortho_tools.get_extent, im, **kw)
    of = [1] if sc.single else [b + 1 for b in (range(sc.nb) if bands is None else [bands] if isinstance(bands, int) else bands)]
    poly = []
    if not err:
        try:
            poly = [[float(a), float(b)] for a, b in ex.exterior.coords]
        except Exception:
            err = "not-a-polygon"
    if err:
        case.ev("extent", err=err)
        return None
    case.ev("extent", err="", poly=enc(poly[:-1]), pts=enc(test_points(r, sc, t.desc["z"], poly)), of=of, nx=sc.nx, ny=sc.ny, eps="1/20",
            exact=sc.single and undistorted(sc.sensors[0]))
    return ex


def ground(case, r, sc, im, t, px=None, band=None):
    b = 0 if sc.single else r.randrange(sc.nb)
    if band is not None:
        b = 0 if sc.single else band
    if px is None:
        n = r.randint(1, 6)
        sh = r.choice([(n,), (1, n), (n, 1), (2, 2)])
        px = [[r.uniform(0, sc.nx - 1), r.uniform(0, sc.ny - 1)] for _ in range(int(np.prod(sh)))]
    else:
        sh = (len(px),)
    kw = {"band": b} if not sc.single or r.random() < .5 else {}
    if t.desc["k"] != "const" or t.desc["z"] != 0 or r.random() < .5:
        kw["dem"] = t.dem
    xs, ys = S.shaped([p[0] for p in px], sh), S.shaped([p[1] for p in px], sh)
    res, err = guard(ortho_tools.get_pixel_lon_lats, im, pixels_x=xs, pixels_y=ys, **kw)
    S.ev2(case, "ground", res, err, sh, px=enc(px), b=b + 1, land=[] if err else t.land(sc.proj, np.ravel(res[0]), np.ravel(res[1])), eps="1/20", slope=num(float(t.slope)), reach=num(float(t.hi - t.lo)), tan=num(float(sc.tan)), gsd=num(float(sc.gsd) / 4))
    return res


def full(case, r, sc, im, t, bands):
    ex = extent(case, None, r, sc, im, t, bands)
    if ex is None:
        return
    out = None
    if r.random() < .35:
        out = r.choice([PROJS["webmerc"](), PROJS["wgs84"](), PROJS["utm18n"]()])
        if out.srs == sc.proj.srs:
            out = Proj(out.srs)
    box = list(ex.bounds)
    other = out is not None and out.srs != sc.proj.srs
    if other:
        q = reproject(sc.proj, out, *[np.array(v) for v in ex.exterior.coords.xy])
        box = [float(np.min(q[0])), float(np.min(q[1])), float(np.max(q[0])), float(np.max(q[1]))]
    lon, lat = reproject(sc.proj, PROJS["wgs84"](), ex.bounds[0], ex.bounds[1])
    utm = Proj(proj="utm", ellps="WGS84", zone=int(math.floor((lon + 180) / 6)) + 1, south=bool(lat < 0))
    local = reproject(out if other else sc.proj, utm, np.array([box[0], box[2], box[0]]), np.array([box[1], box[1], box[3]]))
    wx, wy = np.hypot(local[0][1] - local[0][0], local[1][1] - local[1][0]), np.hypot(local[0][2] - local[0][0], local[1][2] - local[1][0])
    auto = r.random() < .4
    gsd = float(min(max(wx, wy) / r.uniform(2, 9), wx / 1.2, wy / 1.2))
    order = r.choice([0, 1])
    nd = r.choice([0, 0, 255])
    kw = {"dem": t.dem, "nodata_val": nd, "spline_order": order}
    if not auto:
        kw["gsd_meters"] = gsd
    if bands is not None:
        kw["bands"] = bands
    corners = [[], []]
    if auto:
        q = ground(case, r, sc, im, t, [[0., 0.], [sc.nx - 1., 0.], [0., sc.ny - 1.]], 0 if bands is None else int(np.ravel(bands)[0]))
        if q is None:
            return
        q = reproject(sc.proj, utm, *q)
        corners = [[num(float(v)) for v in z] for z in q]
    if out is not None:
        kw["output_proj"] = out
    g, err = guard(ortho_tools.create_full_ortho_gtiff_image, im, **kw)
    nx = ny = 0
    if not err:
        ny, nx = g.get_image_data().shape[:2]
    native = []
    if other and nx * ny:
        cx, cy = (box[2] - box[0]) / nx, (box[3] - box[1]) / ny
        q = reproject(out, sc.proj, np.array([box[0] + (i + .5) * cx for j in range(ny) for i in range(nx)]), np.array([box[3] - (j + .5) * cy for j in range(ny) for i in range(nx)]))
        native = [[num(float(a)), num(float(b))] for a, b in zip(*q)]
    O.raster_of(case, "full", g, err, nx=int(nx), ny=int(ny), box=enc(box), bands=list(range(sc.nb)) if bands is None else bands, order=order, nodata=num(nd),
                dt=sc.dt, mask=False, same=not other, native=native, wantproj=(out or sc.proj).srs, local=S.flat2(local), kept=True, gsd=num(float(gsd)), auto=auto, corners=corners, snx=sc.nx, sny=sc.ny, land=[],
                slack="1/1000")


def run(ctx):
    r = ctx.rng
    ctx.mc("Ortho_MC", what="the outline of a frame under every small affine georeference holds exactly the imaged points")
    for i in range(ctx.n(160, 2500)):
        small = r.random() < .5
        sc = O.Scene(ctx, r, small=small, nb=None if small else r.choice([1, 2, 2, 3]))
        if sc.err:
            case = ctx.case("sensor-%d" % i, cams=[{"k": "geot", "g": [0, 1, 0, 0, 0, 1]}], t={"k": "const", "z": 0}, src=[])
            case.ev("extent", err="construction")
            continue
        t = sc.terrain(flat=True)
        case = ctx.case("extent-%d" % i, cams=sc.descs(), t=t.desc, src=sc.src() if small else [])
        im = sc.image("memory")
        bands = None
        if r.random() < .4:
            bands = sorted(r.sample(range(sc.nb), r.randint(1, sc.nb)))
            if not small and r.random() < .5:
                bands = r.choice(bands)
        if small:
            full(case, r, sc, im, t, bands)
        else:
            extent(case, ctx, r, sc, im, t, bands)
        t2 = sc.terrain(flat=r.random() < .4)
        case = ctx.case("ground-%d" % i, cams=sc.descs(), t=t2.desc, src=[])
        ground(case, r, sc, im, t2)
    ctx.judge("Ortho_Trace")
    for i in range(ctx.n(6, 150)):
        splines.ortho(ctx, r, i, True)
    ctx.judge("Spline_Trace")
