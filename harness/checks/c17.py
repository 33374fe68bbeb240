"""C17: orthorectified images hold, at each ground cell, the sensor's pixel there."""
import os

import gdal
import numpy as np
from shapely.geometry import Polygon, box as shapely_box

import dems as D
import orthos as O
import sensors as S
import splines
from geo import reproject
from imgdrv import PROJS
from vf import enc, guard, num
from resippy.image_objects.image_factory import ImageFactory
from resippy.photogrammetry import ortho_tools
from resippy.utils import photogrammetry_utils as pu

ASSUMPTIONS = ["the camera looks down at the terrain from above (no point behind the camera)", "splines of order 2 to 5 on pictures flat but for a few samples",
               "cells within one pixel of the source's edge may hold the source value or nodata"]


def polygon(r, b):
    """A polygon with the envelope b."""
    if r.random() < .6:
        return shapely_box(*b)
    x0, y0, x1, y1 = b
    mx, my = x0 + (x1 - x0) * r.uniform(.1, .9), y0 + (y1 - y0) * r.uniform(.1, .9)
    return Polygon([(x0, my), (mx, y0), (x1, my), (mx, y1)])


def nodata_for(r, dt):
    if dt == "uint8":
        return r.choice([0, 0, 255])
    if dt[0] == "u":
        return r.choice([0, 65535])
    return r.choice([0, -9999, -1.5 if dt[0] == "f" else -7])


def readback(path):
    """The file, read with GDAL itself."""
    ds = gdal.Open(path)
    a = np.stack([ds.GetRasterBand(b + 1).ReadAsArray() for b in range(ds.RasterCount)], axis=2)
    nd = ds.GetRasterBand(1).GetNoDataValue()
    return a, ds.GetGeoTransform(), nd


def again(case, first, a, err, geot, nd):
    """The same image from elsewhere."""
    ok = not err
    case.ev("again", err=err, v=[[num(v) for v in a[:, :, b].ravel().tolist()] for b in range(a.shape[2])] if ok else [], osh=list(a.shape) if ok else [],
            odt=str(a.dtype) if ok else "", geot=enc([float(v) for v in geot]) if ok else [], ond=enc(nd),
            want=first["v"], wantsh=first["osh"], wantdt=first["odt"], wantgeot=first["geot"], wantnd=first["ond"])


def one(ctx, r, case, sc, t, box, nx, ny, order, world=None, old=False):
    kinds = ["memory", "disk", "loaded", "geotiff"]
    if old and not sc.single:       # the older routine reads such images from disk only
        kinds = ["disk", "loaded"]
    kind = r.choice(kinds)
    bands = None
    if r.random() < .5:
        bands = [r.randrange(sc.nb) for _ in range(r.randint(1, 3))]
    nd = nodata_for(r, sc.dt)
    mask = r.random() < .25
    out = os.path.join(ctx.scratch, "o%d.tif" % r.randrange(10 ** 12)) if r.random() < .3 else None
    kw = {"spline_order": order}
    if t.desc["k"] != "const" or t.desc["z"] != 0 or r.random() < .5:
        kw["dem"] = t.dem
    if bands is not None:
        kw["bands"] = bands
    if nd != 0 or r.random() < .5:
        kw["nodata_val"] = nd
    if mask:
        kw["mask_no_data_region"] = True
    if out:
        kw["output_fname"] = out
    if order == 0 and r.random() < .3:
        del kw["spline_order"]
    proj = world or sc.proj
    poly = polygon(r, box)
    im = sc.image(kind)
    make = ortho_tools.create_ortho_gtiff_image_world_to_sensor
    if old:
        make = ortho_tools.create_ortho_gtiff_image_world_to_sensor_backup
        if "spline_order" in kw:
            kw["interpolation"] = ["nearest", "bilinear"][kw.pop("spline_order")]
    g, err = guard(make, im, nx, ny, poly, proj, **kw)
    kept = True
    if kind != "disk":
        kept = bool(np.array_equal(np.asarray(im.get_image_data()), sc.a))
    gx, gy = box[0], box[3]
    wx, wy = (box[2] - box[0]) / nx, (box[3] - box[1]) / ny
    cells = [[gx + (i + .5) * wx, gy - (j + .5) * wy] for j in range(ny) for i in range(nx)]
    native = cells
    if world is not None:
        q = reproject(world, sc.proj, np.array([c[0] for c in cells]), np.array([c[1] for c in cells]))
        native = [[float(a), float(b)] for a, b in zip(*q)]
    e = O.raster_of(case, "ortho", g, err, nx=nx, ny=ny, box=enc(box), bands=list(range(sc.nb)) if bands is None else bands, order=order, nodata=num(nd),
                    dt=sc.dt, mask=mask, blend=old, same=world is None, native=enc(native) if world is not None else [], world=enc(cells) if world is not None else [],
                    wantproj=proj.srs, kept=kept, land=t.land(sc.proj, [c[0] for c in native], [c[1] for c in native]))
    if e["err"]:
        return
    if out:
        r3, err = guard(readback, out)
        a, geot, n3 = r3 if not err else (None, [], None)
        again(case, e, a, err, geot, n3)
        if os.path.exists(out):
            os.remove(out)
    if r.random() < .5:
        kw.pop("output_fname", None)
        k2 = r.choice([k for k in kinds if k != kind])
        g, err = guard(make, sc.image(k2), nx, ny, poly, proj, **kw)
        again(case, e, None if err else g.get_image_data(), err, [] if err else g.get_point_calculator().get_geot(),
              None if err else g.get_metadata().get_nodata_val())


def scene_case(ctx, tag, sc, t):
    return ctx.case(tag, cams=sc.descs(), t=t.desc, src=sc.src())


class Fixed(O.Scene):
    """A source image under a given georeference."""

    def __init__(self, ctx, r, g, nx, ny):
        self.ctx, self.r, self.nx, self.ny, self.err = ctx, r, nx, ny, ""
        self.nb, self.dt = r.choice([1, 2]), r.choice(O.DTYPES)
        self.a = O.pixels_of(r, ny, nx, self.nb, self.dt)
        self.proj = PROJS["utm18n"]()
        self.sensors = [S.geot(r, g=g, proj=self.proj, npix=(nx, ny))]
        self.single = True
        self.frame()


def grids(ctx, r, case):
    nx, ny = r.randint(1, 6), r.randint(1, 6)
    b = r.choice([[r.uniform(-180, 4e5), r.uniform(-80, 4e6)], [r.uniform(-180, 179), r.uniform(-80, 79)], [r.uniform(-2e6, 0), r.uniform(-4e6, 0)], [0., 0.],
                  [r.uniform(-1, 0), r.uniform(-1, 0)]])
    b += [b[0] + 10 ** r.uniform(-3, 4), b[1] + 10 ** r.uniform(-3, 4)]
    res, err = guard(pu.create_ground_grid, b[0], b[2], b[1], b[3], nx, ny)
    S.ev2(case, "grid", res, err, (ny, nx), nx=nx, ny=ny, box=enc(b))
    poly = polygon(r, b)
    b2 = list(poly.bounds)
    res, err = guard(pu.world_poly_to_geo_t, poly, nx, ny)
    case.ev("geot", err=err, r=enc([float(v) for v in res]) if not err else [], nx=nx, ny=ny, box=enc(b2))
    gx, gy = (b2[2] - b2[0]) / r.uniform(.5, 30), (b2[3] - b2[1]) / r.uniform(.5, 30)
    res, err = guard(pu.get_nx_ny_pixels_in_extent, poly, gx, gy)
    case.ev("count", err=err, r=enc(list(res)) if not err else [], gx=num(gx), gy=num(gy), box=enc(b2))


def run(ctx):
    r = ctx.rng
    behs = ctx.mc("Ortho_MC", what="every small grid over a 4x3 source under four georeferences: cells tile the rectangle, the source's own grid reproduces it, outlines hold the frame")
    from fractions import Fraction
    f = lambda v: float(Fraction(v))
    for i, b in enumerate(behs if ctx.thorough else r.sample(behs, 120)):
        # the small world of the specification, somewhere on the ground; samples off their ties
        k = r.choice([1., 8., 30.])
        ox, oy = 4.5e5, 4e6
        g = [f(v) for v in b["cam"]]
        g = [g[0] * k + ox, g[1] * k, g[2] * k, g[3] * k + oy, g[4] * k, g[5] * k]
        sc = Fixed(ctx, r, g, 4, 3)
        t = D.constant(r.choice([0, 25.]))
        box = [f(v) * k + o for v, o in zip(b["box"], (ox, oy, ox, oy))]
        case = scene_case(ctx, "spec-%d" % i, sc, t)
        one(ctx, r, case, sc, t, box, b["nx"], b["ny"], r.choice([0, 1]))
    for i in range(ctx.n(170, 2500)):
        sc = O.Scene(ctx, r)
        if sc.err:
            case = ctx.case("sensor-%d" % i, cams=[{"k": "geot", "g": [0, 1, 0, 0, 0, 1]}], t={"k": "const", "z": 0}, src=[])
            case.ev("geot", err="construction")
            continue
        world = PROJS["webmerc"]() if r.random() < .25 else None
        t = sc.terrain(world=world is not None)
        case = scene_case(ctx, "ortho-%d" % i, sc, t)
        for _ in range(2):
            box = sc.box(r)
            if world is not None:
                x, y = reproject(sc.proj, world, np.array([box[0], box[2]]), np.array([box[1], box[3]]))
                box = [float(x[0]), float(y[0]), float(x[1]), float(y[1])]
            one(ctx, r, case, sc, t, box, r.randint(1, 7), r.randint(1, 7), r.choice([0, 1]), world, r.random() < .3)
        grids(ctx, r, case)
    ctx.judge("Ortho_Trace")
    for i in range(ctx.n(30, 600)):
        splines.ortho(ctx, r, i)
    ctx.judge("Spline_Trace")
