"""C04: georeferenced images: pixel and world coordinates, extent."""
import numpy as np
from pyproj import transform

import sensors as S
from imgdrv import PROJS
from vf import enc, guard, num
from resippy.photogrammetry import crs_defs

ASSUMPTIONS = ["map projections are pyproj's"]


def pixels(r, sh):
    cnt = int(np.prod(sh)) if sh else 1
    px = [[r.choice([float(r.randint(-5, 300)), r.uniform(-20, 300)]) for _ in range(2)] for _ in range(cnt)]
    return px, S.shaped([p[0] for p in px], sh), S.shaped([p[1] for p in px], sh)


def image_calc(ctx, i, r, s):
    """The calculator of a real image, from an array or from a file."""
    import os
    from resippy.image_objects.image_factory import ImageFactory
    nx, ny = s.npix
    g = [float(v) for v in s.calc.get_geot()]
    im, err = guard(ImageFactory.geotiff.from_numpy_array, np.zeros((ny, nx, 1), dtype=np.uint8), g, s.proj)
    if err:
        return None, err
    if r.random() < .5:
        p = os.path.join(ctx.scratch, "g%d.tif" % i)
        _, err = guard(im.write_to_disk, p)
        im, err = guard(ImageFactory.geotiff.from_file, p)
        if err:
            return None, err
    return im.get_point_calculator(), ""


def run(ctx):
    r = ctx.rng
    ctx.mc("Camera_MC", what="affine georeference and its inverse undo each other on an exact grid")
    for i in range(ctx.n(600, 8000)):
        s = S.geot(r)
        case = ctx.case("geot-%d" % i, cams=[s.desc])
        err = s.err
        if not err and r.random() < .25:
            calc, err = image_calc(ctx, i, r, s)
            s.calc = calc
        if err:
            S.ev2(case, "px", None, err, (), b=1, pts=[])
            continue
        S.px_event(case, r, s)
        sh = S.shape_for(r)
        px, xs, ys = pixels(r, sh)
        alt = r.choice([None, 0., r.uniform(-100, 900), "arr"])
        if alt == "arr":
            alt = S.shaped([r.uniform(0, 900)] * len(px), sh)
        res, err = guard(s.calc.pixel_x_y_alt_to_lon_lat, xs, ys, alt)
        S.ev2(case, "geoinv", res, err, sh, b=1, px=enc(px))
        if not err:                                 # there and back
            back, err = guard(s.calc.lon_lat_alt_to_pixel_x_y, res[0], res[1], r.choice([None, 0, 77.5]))
            if S.two(back):
                S.ev2(case, "same", back, err, sh, want=[[num(p[0]) for p in px], [num(p[1]) for p in px]], tol="1/10000")
        # another projection
        lonlat = abs(float(s.calc.get_geot()[0])) <= 180
        other = PROJS[r.choice(["utm18n", "webmerc"] if not lonlat else ["webmerc"])]() if r.random() < .5 or lonlat else crs_defs.PROJ_4326
        if lonlat and abs(float(s.calc.get_geot()[3])) > 75:
            continue
        if other.srs == s.calc.get_projection().srs:
            continue
        native, err = guard(s.calc.pixel_x_y_alt_to_lon_lat, xs, ys, 0)
        if lonlat and not err and np.max(np.abs(native[0])) > 179:      # across the antimeridian longitudes start again
            continue
        res, err2 = guard(s.calc.pixel_x_y_alt_to_lon_lat, xs, ys, 0, other)
        if not err:
            want = transform(s.calc.get_projection(), other, native[0], native[1])
            S.ev2(case, "same", res, err2, sh, want=S.flat2(want), tol="1/1000000000")
            if not err2:
                back, err = guard(s.calc.lon_lat_alt_to_pixel_x_y, res[0], res[1], 0, other)
                S.ev2(case, "same", back, err, sh, want=[[num(p[0]) for p in px], [num(p[1]) for p in px]], tol="1/1000")
        poly, err = guard(s.calc.get_world_extent_native)
        nx, ny = s.npix
        case.ev("extent", b=1, nx=nx, ny=ny, err=err, v=[] if err else enc([list(q) for q in poly.exterior.coords]),
                area="nan" if err else num(poly.area))
    ctx.judge("Sensor_Trace")
