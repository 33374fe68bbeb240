"""Pictures of bumps on a flat ground for the interpolations of order 2 to 5 (Spline.tla)."""
import os

import numpy as np

import orthos as O
import sensors as S
from imgdrv import PROJS
from vf import enc, guard, num
from resippy.image_objects.image_factory import ImageFactory
from resippy.photogrammetry import ortho_tools
from resippy.photogrammetry.dem.dem_factory import DemFactory
from resippy.utils.image_utils import image_utils
from shapely.geometry import box as shapely_box

NAMES = {2: "biquadratic", 3: "bicubic", 4: "biquartic", 5: "biquintic"}
EDGE = 14       # samples after which a bump has faded out


def bumps(r):
    n = [r.randint(1, 4), r.randint(1, 4)]
    at = [EDGE + r.randint(0, 5), EDGE + r.randint(0, 5)]
    size = [at[0] + n[0] + EDGE + r.randint(0, 4), at[1] + n[1] + EDGE + r.randint(0, 4)]
    dt = r.choice(["float32", "float64"])
    ground = r.choice([0, 0, 2, -1.5])
    a = np.full((size[1], size[0]), ground, dtype=dt)
    blk = np.array([[r.choice([0., r.uniform(-9, 9), 5.]) for _ in range(n[0])] for _ in range(n[1])]).astype(dt)
    a[at[1]:at[1] + n[1], at[0]:at[0] + n[0]] = blk
    return a, dict(w=size[0], h=size[1], nodata=num(ground),
                   src={"x0": at[0], "y0": at[1], "nx": n[0], "ny": n[1], "ground": num(ground), "v": [num(v) for v in blk.ravel().tolist()]}), ground


def warp(ctx, r, i):
    a, k, ground = bumps(r)
    s = k["src"]
    case = ctx.case("smooth-%d" % i)
    for order in r.sample([2, 3, 4, 5], 2):
        q = [[round(s["x0"] + r.uniform(-4, s["nx"] + 3), 3), round(s["y0"] + r.uniform(-4, s["ny"] + 3), 3)] for _ in range(8)] + [[s["x0"], s["y0"]]]
        p = np.array(q, dtype=float).reshape(3, 3, 2)
        kw = {"nodata_val": ground} if ground or r.random() < .5 else {}
        res, err = guard(image_utils.grid_warp_image_band, a.copy(), p[:, :, 0].copy(), p[:, :, 1].copy(), interpolation=NAMES[order], **kw)
        case.ev("smooth", err=err, order=order, q=enc(q), v=[num(float(v)) for v in np.ravel(res)] if not err else [], **k)


def ortho(ctx, r, i, full=False):
    a, k, ground = bumps(r)
    s = k["src"]
    q = r.uniform(.5, 20)
    g = [5e5 + r.uniform(-9e4, 9e4), q, 0., 4.4e6 + r.uniform(-1e6, 1e6), 0., -q * r.uniform(.8, 1.2)]
    if not full:
        g[2], g[4] = r.uniform(-.2, .2) * q, r.uniform(-.2, .2) * q
    case = ctx.case("spline-%d" % i)
    calc = S.geot(r, g=g, proj=PROJS["utm18n"](), npix=(k["w"], k["h"])).calc
    for order in r.sample([2, 3, 4, 5], 2):
        kind = r.choice(["geotiff", "disk", "loaded"])
        path = os.path.join(ctx.scratch, "sp%d.tif" % r.randrange(10 ** 12))
        O.write_image(path, a.reshape(a.shape + (1,)), 32618)
        if kind == "geotiff":
            im = ImageFactory.geotiff.from_file(path)
            im.set_point_calculator(calc)
            im.set_image_data(a.reshape(a.shape + (1,)).copy())
        else:
            im = ImageFactory.physical_camera.from_gdal_file_and_single_point_calc(path, calc)
            if kind == "loaded":
                im.set_image_data(im.read_all_image_data_from_disk())
        os.remove(path)
        kw = {"nodata_val": ground, "spline_order": order}
        if ground == 0 and r.random() < .5:
            del kw["nodata_val"]
        if full:
            m = r.uniform(3.3, 5.2)
            pr, err = guard(ortho_tools.create_full_ortho_gtiff_image, im, gsd_meters=float(m * q), dem=DemFactory.constant_elevation(0) if r.random() < .5 else None, **kw)
        else:
            cx, cy = s["x0"] + s["nx"] / 2 - .5, s["y0"] + s["ny"] / 2 - .5
            gx, gy = g[0] + cx * g[1] + cy * g[2], g[3] + cx * g[4] + cy * g[5]
            hx, hy = r.uniform(1.5, 6) * q, r.uniform(1.5, 6) * q
            old = r.random() < .3
            if old:
                kw["interpolation"] = NAMES[kw.pop("spline_order")]
            make = ortho_tools.create_ortho_gtiff_image_world_to_sensor_backup if old else ortho_tools.create_ortho_gtiff_image_world_to_sensor
            pr, err = guard(make, im, r.randint(2, 4), r.randint(2, 4), shapely_box(gx - hx, gy - hy, gx + hx, gy + hy), PROJS["utm18n"](), **kw)
        f = dict(nx=0, ny=0, osh=[], geot=[], v=[])
        if not err:
            d = pr.get_image_data()
            f = dict(nx=int(d.shape[1]), ny=int(d.shape[0]), osh=list(d.shape), geot=[num(float(v)) for v in pr.get_point_calculator().get_geot()], v=[num(float(v)) for v in d.ravel().tolist()])
        case.ev("ortho", err=err, order=order, cam=enc(g), **f, **k)
