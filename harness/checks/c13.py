"""C13: geolocation-grid images return their stored positions."""
from fractions import Fraction

import numpy as np

import sensors as S
from geo import reproject
from imgdrv import PROJS, crsobs
from vf import enc, guard, num
from resippy.image_objects.earth_overhead.igm.igm_image import IgmImage
from resippy.image_objects.image_factory import ImageFactory
from resippy.image_objects.earth_overhead.physical_camera.physical_camera_metadata import PhysicalCameraMetadata
from resippy.photogrammetry import ortho_tools
from resippy.photogrammetry.dem.dem_factory import DemFactory

ASSUMPTIONS = ["stored positions are distinct, 1e-5 units or more apart", "grids of six pixels or more", "whole pixel indices inside the grid"]


def grids(r, nx, ny):
    """Positions of a regular, sheared or irregular grid, and its spacing."""
    s = 10 ** r.uniform(-4.5, 1.5)
    deg = s < .01
    x0, y0 = (r.uniform(-170, 170), r.uniform(-80, 80)) if deg else (r.uniform(3e5, 7e5), r.uniform(1e6, 5e6))
    yy, xx = np.mgrid[0:ny, 0:nx]
    kind = r.randrange(3)
    sh = r.uniform(-.4, .4) if kind else 0.
    lon, lat = x0 + s * (xx + sh * yy), y0 + s * (sh * xx - yy)
    if kind == 2:
        j = lambda: np.array([[r.uniform(-.15, .15) for _ in range(nx)] for _ in range(ny)]) * s
        lon, lat = lon + j(), lat + j()
    if r.random() < .3:
        lon, lat = lon[:, ::-1].copy(), lat[:, ::-1].copy()
    return lon, lat, "wgs84" if deg else "utm18n", s, kind == 0


def flatnum(a):
    return [num(float(v)) for v in np.ravel(a)]


def made(case, im, err):
    if not err:
        def read():
            pc, md = im.get_point_calculator(), im.get_metadata()
            d = im.get_image_data()
            return dict(nx=enc(md.get_npix_x()), ny=enc(md.get_npix_y()), nb=enc(md.get_n_bands()), lon=flatnum(pc.lon_image),
                        lat=flatnum(pc.lat_image), alt=flatnum(pc.alt_image), px=flatnum(d),
                        bands=[flatnum(im.get_image_band(b)) for b in range(d.shape[2])], crs=crsobs(im.pointcalc.get_projection()))
        f, err = guard(read)
        if not err:
            return case.ev("make", err="", **f)
    return case.ev("make", err=err)


def indices(r, nx, ny, sh):
    cnt = int(np.prod(sh)) if sh else 1
    q = [[r.randrange(nx), r.randrange(ny)] for _ in range(cnt)]
    if r.random() < .3:
        q[0] = [nx - 1, ny - 1]
    return q


def run(ctx):
    r = ctx.rng
    ctx.mc("Igm_MC", what="a stored pixel outweighs its neighbours in the weighting; means stay inside the grid")
    for i in range(ctx.n(300, 5000)):
        nx, ny = (r.randint(2, 9), r.randint(3, 7)) if i % 25 != 6 else r.choice([(r.randint(30, 60), 3), (2, r.randint(30, 60))])
        nb = r.randint(1, 3)
        lon, lat, pn, s, regular = grids(r, nx, ny)
        proj = PROJS[pn]()
        alt = r.choice([0, 0., r.randint(-50, 500), r.uniform(-50, 500), None])
        if alt is None:
            alt = np.array([[r.uniform(0, 900) for _ in range(nx)] for _ in range(ny)])
        d = np.array([r.randint(0, 255) for _ in range(nx * ny * nb)]).reshape(ny, nx, nb).astype(r.choice(["uint8", "float32", "int32"]))
        case = ctx.case("igm-%d" % i, g={"nx": nx, "ny": ny, "nb": nb, "lon": flatnum(lon), "lat": flatnum(lat), "alt": flatnum(alt), "px": flatnum(d)},
                        crs=crsobs(proj))
        im, err = guard(IgmImage.from_params, d, lon, lat, alt, nb, proj)
        made(case, im, err)
        if err:
            continue
        pc = im.get_point_calculator()
        for _ in range(2):
            sh = S.shape_for(r)
            q = indices(r, nx, ny, sh)
            ints = lambda k: q[0][k] if not sh else np.array([p[k] for p in q]).reshape(sh)
            a = r.choice([None, 0, 55.5])
            res, err = guard(pc.pixel_x_y_alt_to_lon_lat, ints(0), ints(1), a)
            S.ev2(case, "fwd", res, err, sh, q=q)
            if not err and r.random() < .3:
                other = PROJS["webmerc"]()
                want = reproject(proj, other, res[0], res[1])
                res2, err2 = guard(pc.pixel_x_y_alt_to_lon_lat, ints(0), ints(1), a, world_proj=other)
                S.ev2(case, "same", res2, err2, sh, want=S.flat2(want), tol="1/1000000000")
            sh = S.shape_for(r)
            q = indices(r, nx, ny, sh)
            lo, la = S.shaped([lon[p[1], p[0]] for p in q], sh), S.shaped([lat[p[1], p[0]] for p in q], sh)
            res, err = guard(pc.lon_lat_alt_to_pixel_x_y, lo, la, r.choice([None, 0, 12.]))
            S.ev2(case, "inv", res, err, sh, q=q)
        if regular and nx >= 4 and ny >= 4:
            sh = S.shape_for(r)
            cnt = int(np.prod(sh)) if sh else 1
            q = [[r.uniform(1, nx - 2), r.uniform(1, ny - 2)] for _ in range(cnt)]
            sx, sy = lon[0, 1] - lon[0, 0], lat[1, 0] - lat[0, 0]
            res, err = guard(pc.lon_lat_alt_to_pixel_x_y, S.shaped([lon[0, 0] + sx * p[0] for p in q], sh), S.shaped([lat[0, 0] + sy * p[1] for p in q], sh), 0)
            S.ev2(case, "between", res, err, sh, q=enc(q), tol="3/5")
        made(case, im, "")                # queries leave the grids alone
    for i in range(ctx.n(25, 300)):
        nx, ny, nb = r.randint(2, 7), r.randint(3, 6), r.randint(1, 3)
        kind = r.choice([lambda: S.fpa(r, Fraction(1, 20), via="local", alt=r.uniform(800, 1500), npix=(nx, ny)), lambda: S.geot(r, npix=(nx, ny)),
                         lambda: S.pix4d(r, Fraction(1, 20), mild=True, alt=r.uniform(800, 1500), npix=(nx, ny))])
        s = kind()
        z = r.choice([0, r.uniform(-20, 400)])
        if s.desc["k"] == "geot":
            s.desc = dict(s.desc)
        d = np.array([r.randint(0, 255) for _ in range(nx * ny * nb)]).reshape(ny, nx, nb)
        case = ctx.case("cast-%d" % i, g={}, cam=s.desc, npix=[nx, ny, nb], z=num(z), px=flatnum(d))

        def build():
            md = PhysicalCameraMetadata()
            md.set_npix_x(nx)
            md.set_npix_y(ny)
            md.set_n_bands(nb)
            if s.pos:
                s.calc.set_approximate_lon_lat_center(s.pos[0], s.pos[1])
            src = ImageFactory.physical_camera.from_numpy_array_metadata_and_single_point_calc(d, md, s.calc)
            kw = {"dem": DemFactory.constant_elevation(z)} if z or r.random() < .5 else {}
            if r.random() < .5:
                kw["dem_sample_distance"] = r.choice([1, 2.5, 10])
            return ortho_tools.create_igm_image(src, **kw)
        im, err = guard(build) if not s.err else (None, s.err)
        made(case, im, err).update(op="cast", wantcrs=crsobs(s.calc.get_projection()) if not s.err else [])
    ctx.judge("Igm_Trace")
