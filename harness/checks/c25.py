"""C25: simulated pictures show the source where each pixel's line of sight meets the ground."""
import os
from fractions import Fraction

import numpy as np

import dems as D
import sensors as S
from geo import UNITS_ANGLE, half_angle, random_tan, rat, reproject
from imgdrv import PROJS
from vf import enc, guard, num
from resippy.utils.physical_camera_simulator import PhysicalCameraSimulator

ASSUMPTIONS = ["cameras above the plane z = 0 and tilted at most about 30 degrees", "sources whose samples lie on a plane, which every spline reproduces; pixels within 14 samples of the source's edge are left open",
               "positions within the solver's hundredth of a pixel"]
ORDERS = ["rpy", "ryp", "pry", "pyr", "yrp", "ypr"]
LENGTHS = ["meters", "feet", "km"]


def source(ctx, r, cx, cy, half):
    """A GeoTIFF around (cx, cy) written with GDAL itself."""
    nx, ny = r.randint(60, 140), r.randint(60, 140)
    q = 2 * half / min(nx, ny)
    g = [q, r.uniform(-.3, .3) * q, r.uniform(-.3, .3) * q, -q * r.uniform(.8, 1.2)]
    if r.random() < .4:
        g[1] = g[2] = 0.
    g = [cx - (g[0] * nx + g[1] * ny) / 2, g[0], g[1], cy - (g[2] * nx + g[3] * ny) / 2, g[2], g[3]]
    g = [float(v) for v in g]
    dt = r.choice(["float64", "float64", "float32", "uint16"])
    c = [r.randint(300, 900), r.choice([-3, -1, 0, 2, 5]), r.choice([-2, 0, 1, 4])]
    y, x = np.mgrid[0:ny, 0:nx]
    c[0] -= min(0, c[1] * nx + c[2] * ny, c[1] * nx, c[2] * ny)
    a = (c[0] + c[1] * x + c[2] * y).astype(dt)
    path = os.path.join(ctx.scratch, "src%d.tif" % r.randrange(10 ** 12))
    if r.random() < .4:         # further bands do not matter
        from osgeo import gdal, gdal_array, osr
        ds = gdal.GetDriverByName("GTiff").Create(path, nx, ny, 2, gdal_array.NumericTypeCodeToGDALTypeCode(a.dtype))
        ds.SetGeoTransform(g)
        srs = osr.SpatialReference()
        srs.ImportFromEPSG(32618)
        ds.SetProjection(srs.ExportToWkt())
        ds.GetRasterBand(1).WriteArray(a)
        ds.GetRasterBand(2).WriteArray(a[::-1, ::-1])
        ds = None
    else:
        D.write_raster(path, a, g, 32618)
    return path, {"g": enc(g), "nx": nx, "ny": ny, "c0": c[0], "cx": c[1], "cy": c[2], "step": "1" if dt == "uint16" else "1/100"}


def body_of(r, t, order):
    nx, ny = r.randint(3, 14), r.randint(3, 12)
    if r.random() < .2:
        ny = nx
    half = r.uniform(.05, .35)
    f = 10 ** r.uniform(.7, 2.3)                    # mm
    pp = f * 1e3 * half * 2 / max(nx, ny)           # um
    fu, pu = r.choice(["mm", "cm", "meters"]), r.choice(["micrometer", "mm", "um"])
    au, eu, zu = r.choice(["degrees", "radians"]), r.choice(["degrees", "radians", "milliradians"]), r.choice(LENGTHS)
    fv = f * 1e-3 / S.LEN[fu]
    ppx = pp * 1e-6 / S.LEN.get(pu, 1e-6)
    ppy = ppx * r.choice([1, r.uniform(.7, 1.4)])
    kw = {}
    b = [half_angle(q) * UNITS_ANGLE[au] for q in t]
    for k, v, d in (("boresight_roll", b[0], 0), ("boresight_pitch", b[1], 0), ("boresight_yaw", b[2], 0), ("pixel_pitch_x", ppx, 5), ("pixel_pitch_y", ppy, 5),
                    ("pixel_pitch_units", pu, "micrometer"), ("focal_length_units", fu, "mm"), ("boresight_units", au, "degrees"), ("boresight_rpy_order", order, "rpy"),
                    ("external_orientation_spatial_units", zu, "meters"), ("external_orientation_rpy_units", eu, "degrees")):
        if v != d or r.random() < .5:
            kw[k] = v
    return {"bt": [rat(q) for q in t], "order": order, "f": num(fv), "fu": fu, "ppx": num(ppx), "ppy": num(ppy), "ppu": "um" if pu == "micrometer" else pu, "nx": nx, "ny": ny}, \
        (fv, nx, ny), kw, half, eu, zu


def create_M(body, bt):
    """Float boresight matrix, used only to propose ground points."""
    from resippy.utils import photogrammetry_utils as pu
    return pu.create_M_matrix(*[half_angle(q) for q in bt], order=body["order"])


def history(ctx, r, tag, t, order, poses):
    bt = t
    body, args, kw, half, eu, zu = body_of(r, t, order)
    cx, cy = r.uniform(3e5, 7e5), r.uniform(1e6, 6e6)
    z = r.choice([200., 900., 2500.])
    path, src = source(ctx, r, cx, cy, z * max(half, .1) * r.choice([.6, 1.5, 4]))
    # the world of the camera: the source's own, or another one whose places the source has to be asked in
    own, other = PROJS["utm18n"](), None
    k = r.random()
    if k < .3:
        kw["world_projection"] = own
    elif k < .5:
        other = kw["world_projection"] = PROJS["webmerc"]()
        cx, cy = [float(v) for v in reproject(own, other, cx, cy)]
    case = ctx.case(tag, body=body, src=src)
    sim, err = guard(PhysicalCameraSimulator, path, *args, **kw)
    for t in poses:
        d = S.mat(t).T @ np.array([0, 0, -1.])
        x, y = cx - d[0] / -d[2] * z * r.uniform(.8, 1.2), cy - d[1] / -d[2] * z * r.uniform(.8, 1.2)
        x, y = x + r.uniform(-.1, .1) * z * half, y + r.uniform(-.1, .1) * z * half
        v = z / S.LEN[zu]
        ang = [half_angle(q) * UNITS_ANGLE[eu] for q in t]
        pose = {"xyz": enc([x, y, v]), "zu": zu, "t": [rat(q) for q in t]}
        im, e = (None, err) if err else guard(sim.create_overhead_image_object, x, y, v, *ang)
        f = dict(v=[], osh=[], told=[])
        if not e:
            def look():
                a, m = im.get_image_data(), im.get_metadata()
                return dict(v=[num(float(q)) for q in np.ravel(a)], osh=list(a.shape), told=[m.get_npix_x(), m.get_npix_y(), m.get_n_bands()])
            f, e = guard(look)
            f = f or dict(v=[], osh=[], told=[])
        ground = there = []
        if other is not None:
            # the ground of every pixel, confirmed by the specification, in the source's projection
            px, py = [(np.arange(n) * float(Fraction(body[p])) - n * float(Fraction(body[p])) / 2) / float(Fraction(body["f"])) * S.LEN[body["ppu"]] / S.LEN[body["fu"]]
                      for n, p in ((body["nx"], "ppx"), (body["ny"], "ppy"))]
            M = create_M(body, bt) @ S.mat(t)
            q = np.stack([np.tile(-px, len(py)), np.repeat(py, len(px)), np.ones(len(px) * len(py))])
            w = M.T @ q
            gx, gy = x - w[0] / w[2] * z, y - w[1] / w[2] * z
            ground = enc(np.stack([gx, gy], axis=1))
            there = enc(np.stack(reproject(other, own, gx, gy), axis=1))
        case.ev("shoot", err=e, pose=pose, ground=ground, there=there, **f)
        if not e:
            n = r.randint(1, 4)
            pts = [[x + r.uniform(-1, 1) * z * half - d[0] / d[2] * z, y + r.uniform(-1, 1) * z * half - d[1] / d[2] * z, r.uniform(-.1, .3) * z] for _ in range(n)]
            res, e = guard(lambda: im.get_point_calculator().lon_lat_alt_to_pixel_x_y(*[np.array([p[j] for p in pts]) for j in range(3)]))
            S.ev2(case, "px", res, e, (n,), pts=enc(pts))
    os.remove(path)


def run(ctx):
    r = ctx.rng
    behs = ctx.mc("Simulator_MC", what="bodies and two pictures over a grid of exact angles: ground points are imaged at their pixels, pixels see different ground, no boresight is the platform's camera")
    fr = lambda v: [Fraction(x) for x in v]
    for i, b in enumerate(r.sample(behs, min(len(behs), ctx.n(25, 400)))):
        history(ctx, r, "spec-%d" % i, fr(b["bt"]), b["order"], [fr(t) for t in b["poses"]])
    for i in range(ctx.n(60, 1500)):
        t = [random_tan(r, Fraction(1, 20)), random_tan(r, Fraction(1, 20)), random_tan(r, Fraction(1, 20) if r.random() < .5 else None)]
        if r.random() < .2:
            t = [Fraction(0)] * 3
        poses = [[random_tan(r, Fraction(1, 9)), random_tan(r, Fraction(1, 9)), random_tan(r)] for _ in range(r.randint(1, 3))]
        history(ctx, r, "rand-%d" % i, t, r.choice(ORDERS), poses)
    ctx.judge("Simulator_Trace")
