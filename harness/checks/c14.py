"""C14: elevation models: nearest, bilinear, missing cells, extremes, constant models."""
import math
import os

import numpy as np
from geo import reproject as transform

import dems as D
import sensors as S
from imgdrv import PROJS, crsobs
from vf import enc, guard, num
from resippy.photogrammetry import crs_defs
from resippy.photogrammetry.dem.constant_elevation_dem import ConstantElevationDem
from resippy.photogrammetry.dem.dem_factory import DemFactory
from resippy.photogrammetry.dem.geotiff_dem import GeotiffDem
from resippy.image_objects.earth_overhead.geotiff.geotiff_image_factory import GeotiffImageFactory

ASSUMPTIONS = ["map projections are pyproj's", "the raster is georeferenced by an affine geotransform; points inside the raster",
               "a raster has at least one cell that is not missing",
               "conversions between geoid and ellipsoid: rasters of one band, square cells, geoids linear in longitude and latitude, sample types that hold the result"]
EPSG = {"utm18n": 32618, "wgs84": 4326}
DTYPES = ["float32", "float64", "int16", "int32", "uint8", "uint16"]


def points(r, g, nx, ny, cnt):
    """World positions inside the raster: at samples, on cell edges, halfway, anywhere."""
    out = []
    for _ in range(cnt):
        p = []
        for n in (nx, ny):
            k = r.randrange(5)
            p.append(float(r.randint(0, n - 1)) if k == 0 else r.randint(0, 2 * n - 1) / 2 + (.0 if k == 1 else .25) if k < 3 else r.uniform(0, n - 1e-3))
        x, y = p
        out.append([g[0] + x * g[1] + y * g[2], g[3] + x * g[4] + y * g[5]])
    return out


def query(case, r, dem, g, nx, ny, proj, projname, sh=None, pts=None, exact=False):
    sh = S.shape_for(r) if sh is None else sh
    cnt = int(np.prod(sh)) if sh else 1
    pts = points(r, g, nx, ny, cnt) if pts is None else pts
    x, y = S.shaped([p[0] for p in pts], sh), S.shaped([p[1] for p in pts], sh)
    k = r.randrange(4 if exact else 6)
    if k < 2:
        res, err = guard(dem.get_elevations, x, y)
    elif k < 4:
        res, err = guard(dem.get_elevations, x, y, world_proj=proj)
    else:
        other = crs_defs.PROJ_4326 if projname == "utm18n" else PROJS["webmerc"]()
        ox, oy = transform(proj, other, x, y)
        back = transform(other, proj, ox, oy)
        pts = [[float(u), float(v)] for u, v in zip(np.ravel(back[0]), np.ravel(back[1]))]
        if not sh:
            ox, oy = float(ox), float(oy)
        res, err = guard(dem.get_elevations, ox, oy, other)
    D.obs1(case, "query", res, err, sh, pts=enc(pts), eps="0" if exact else "1/1000000")


def extremes(case, dem):
    hi, e1 = guard(dem.get_highest_alt)
    lo, e2 = guard(dem.get_lowest_alt)
    me, e3 = guard(dem.get_mean_alt)
    err = e1 or e2 or e3
    case.ev("extremes", err=err, hi=enc(hi), lo=enc(lo), mean=enc(me))


def geot_for(r, projname):
    if projname == "wgs84":
        s = 10 ** r.uniform(-4, -2)
        return [r.uniform(-78, -72), s, 0., r.uniform(30, 50), 0., -s * r.choice([1, 1.5])]
    if r.random() < .3:
        a, s = r.uniform(0, 6.28), r.uniform(.5, 30)
        return [r.uniform(4e5, 6e5), s * math.cos(a), s * math.sin(a), r.uniform(3e6, 5e6), s * math.sin(a), -s * math.cos(a)]
    s = r.uniform(.5, 30)
    return [r.uniform(4e5, 6e5), s, 0., r.uniform(3e6, 5e6), 0., -s * r.choice([1, .8])]


def opened(ctx, case, i, r, a, g, projname, filenod, argnod, method, keep=False):
    path = os.path.join(ctx.scratch, "dem%d.tif" % i)
    D.write_raster(path, a, g, EPSG[projname], filenod, [] if keep else [a[::-1, ::-1]] * r.choice([0, 0, 0, 1, 2]))
    kw = {}
    if argnod is not None:
        kw["nodata_value"] = argnod
    if method is not None:
        kw["interpolation_method"] = method
    if argnod is not None and r.random() < .3:      # built by hand, told about missing values first or last
        def make():
            d = GeotiffDem()
            steps = [lambda: d.set_geotiff_image(GeotiffImageFactory.from_file(path)), lambda: d.remove_nodata_values(argnod)]
            for f in steps if r.random() < .5 else steps[::-1]:
                f()
            if method == "nearest":
                d.set_interpolation_to_nearest()
            return d
        dem, err = guard(make)
    else:
        dem, err = guard(DemFactory.from_gtiff_file, path, **kw)
    use = argnod if argnod is not None else filenod
    ny, nx = a.shape
    case.ev("open", nx=nx, ny=ny, v=D.heights_of(a), nodata=num(use) if use is not None else "None", m=method or "bilinear", err=err)
    if not keep:
        os.remove(path)
    return dem, err


def load(ctx, case, i, r, dem, a, g, projname):
    """Give the model another raster over the same ground."""
    path = os.path.join(ctx.scratch, "other%d.tif" % i)
    D.write_raster(path, a, g, EPSG[projname], r.choice([None, 77.0]))
    _, err = guard(lambda: dem.set_geotiff_image(GeotiffImageFactory.from_file(path)))
    case.ev("load", nx=a.shape[1], ny=a.shape[0], v=D.heights_of(a), err=err)
    os.remove(path)


def convert(ctx, case, i, r, dem, g, nx, ny, proj, source, whole, dirn=None):
    """Heights above the geoid or the ellipsoid; the geoid is a plane in longitude and latitude."""
    dirn = dirn or r.choice(["geoid", "ellipsoid"])
    x, y = np.meshgrid(np.arange(nx) + .5, np.arange(ny) + .5)
    lon, lat = transform(proj, crs_defs.PROJ_4326, (g[0] + x * g[1]).ravel(), (g[3] + y * g[5]).ravel())
    n0, ex, nn = r.randint(-40, 40) + .25, r.choice([0, .5, -.25]), r.choice([0, 1., -.5])
    lo, la = int(math.floor(lon.min())) - 3, int(math.floor(lat.min())) - 3
    grid = D.write_geoid(os.path.join(ctx.scratch, "geoid%d.gtx" % i), n0 - ex * lo - nn * la, ex, nn, lo, la, 12)
    und = n0 + ex * (lon - lo) + nn * (lat - la)
    out = os.path.join(ctx.scratch, "conv%d_%s.tif" % (i, dirn))
    before = open(source, "rb").read() if os.path.exists(source) else b""
    _, err = guard(dem.convert_to_geoid_heights if dirn == "geoid" else dem.convert_to_ellipsoid_heights, out, grid)
    got, geot = [], []
    onx = ony = 0
    if not err:
        import gdal
        ds = gdal.Open(out)
        onx, ony, geot = ds.RasterXSize, ds.RasterYSize, ds.GetGeoTransform()
        a = ds.GetRasterBand(1).ReadAsArray()
        nd = ds.GetRasterBand(1).GetNoDataValue()
        got = ["nan" if nd is not None and (v == nd or (v != v and nd != nd)) else num(v) for v in a.ravel().tolist()]
        ds = None
    kept = not os.path.exists(source) or open(source, "rb").read() == before
    case.ev("convert", err=err, dir=dirn, und=[num(float(v)) for v in und], got=got, nx=onx, ny=ony, geot=enc([float(v) for v in geot]), kept=kept,
            tol="51/100" if whole else "1/1000")
    for f in (grid,):
        os.remove(f)
    return out


def frame(case, dem, proj, ref):
    """The projection (by where it places positions) and the vertical reference the model reports."""
    got, err = guard(lambda: [[] if dem.get_projection() is None else crsobs(dem.get_projection()), dem.get_reference()])
    p, f = got if not err else ([], None)
    case.ev("frame", err=err, proj=p, wantproj=[] if proj is None else crsobs(proj), ref=enc(f), wantref=enc(ref))


def run(ctx):
    r = ctx.rng
    behs = ctx.mc("Dem_MC", what="all 3x2 rasters over two heights, marking and switching in every order; laws of the nearest and bilinear heights on quarter pixels")
    if ctx.thorough:
        ctx.mc("Dem_MC", cfg="Dem_MC_Deep", what="the same over three heights", workers=8)
    behs = behs if ctx.thorough else r.sample(behs, 120)
    for i, b in enumerate(behs):
        projname = "utm18n"
        g, proj = geot_for(r, projname), PROJS[projname]()
        square = any(st["a"] in ("geoid", "ellipsoid") for st in b)
        dt = r.choice(["float32", "float64", "int16", "int32"] if square else DTYPES)
        a = np.array(b[0]["v"], dtype=dt).reshape(2, 3)
        case = ctx.case("spec-%d" % i, g=enc(g))
        if square:
            g = [g[0], abs(g[1]) or 1., 0., g[3], 0., -(abs(g[1]) or 1.)]
            case.d["g"] = enc(g)
        dem, err = opened(ctx, case, i, r, a, g, projname, None, None, None, keep=square)
        if err:
            continue
        for st in b[1:]:
            if st["a"] in ("geoid", "ellipsoid"):
                convert(ctx, case, i, r, dem, g, 3, 2, proj, os.path.join(ctx.scratch, "dem%d.tif" % i), dt[0] != "f", st["a"])
            elif st["a"] == "load":
                load(ctx, case, 10 ** 7 + i, r, dem, np.array(st["v"], dtype=dt).reshape(2, 3), g, projname)
            elif st["a"] == "remove":
                _, err = guard(dem.remove_nodata_values, r.choice([int, float])(st["v"][0]))
                case.ev("remove", nodata=st["v"][0], err=err)
            else:
                _, err = guard(dem.set_interpolation_to_nearest if st["a"] == "nearest" else dem.set_interpolation_to_bilinear)
                case.ev("method", m=st["a"], err=err)
            query(case, r, dem, g, 3, 2, proj, projname, sh=(r.choice([6, 9]),))
        extremes(case, dem)
        query(case, r, dem, g, 3, 2, proj, projname)
    for i in range(ctx.n(260, 4000)):
        projname = r.choice(list(EPSG))
        g, proj = geot_for(r, projname), PROJS[projname]()
        nx, ny = r.choice([(r.randint(1, 9), r.randint(1, 9)), (1, r.randint(2, 6)), (r.randint(2, 6), 1), (12, 5)])
        if i % 20 == 3:
            nx, ny = r.choice([(r.randint(40, 120), 2), (2, r.randint(40, 120)), (30, 1)])
        dt = r.choice(DTYPES)
        fl = dt.startswith("float")
        a = np.array([[r.uniform(-400, 4000) if fl and dt == "float64" else float(r.randint(0, 200)) if not fl else r.uniform(0, 900)
                       for _ in range(nx)] for _ in range(ny)]).astype(dt)
        nod = r.choice([None, -9999.0, 0.0, 255.0, float("nan")])
        if fl and dt == "float64" and nod == -9999. and r.random() < .5:      # a height next to the marker is a height
            a[r.randrange(ny), r.randrange(nx)] = r.choice([-9999.04, -9998.96, -9999.0001])
        if nod is not None and (nod == nod and (fl or 0 <= nod <= 255) or fl):
            for _ in range(r.randint(0, nx * ny // 2)):
                y, x = r.randrange(ny), r.randrange(nx)
                if np.sum(~((a == nod) | (a != a))) > 1:
                    a[y, x] = nod
        elif nod is not None:
            nod = None
        filenod, argnod = (nod, None) if r.random() < .5 else (r.choice([None, 77.0]), nod)
        use = argnod if argnod is not None else filenod
        if use is not None and np.all((a == use) | (a != a)):
            continue
        method = r.choice([None, "nearest", "bilinear"])
        case = ctx.case("raster-%d" % i, g=enc(g))
        dem, err = opened(ctx, case, 10 ** 6 + i, r, a, g, projname, filenod, argnod, method)
        if err:
            continue
        extremes(case, dem)
        for sh in ((), None, (r.randint(1, 3), r.randint(1, 4))):
            query(case, r, dem, g, nx, ny, proj, projname, sh=sh)
        if r.random() < .4:
            m = r.choice(["nearest", "bilinear"])
            _, err = guard(dem.set_interpolation_to_nearest if m == "nearest" else dem.set_interpolation_to_bilinear)
            case.ev("method", m=m, err=err)
            query(case, r, dem, g, nx, ny, proj, projname)
        # every sample and every cell once
        pts = [[g[0] + x * g[1] + y * g[2], g[3] + x * g[4] + y * g[5]] for y in range(ny) for x in range(nx)]
        query(case, r, dem, g, nx, ny, proj, projname, sh=(ny, nx), pts=pts)
        if r.random() < .3:                   # another raster in its place
            b = np.where(np.random.RandomState(r.randrange(2 ** 31)).rand(ny, nx) < .5, a, np.asarray(7, dtype=a.dtype))
            if use is not None and np.all((b == use) | (b != b)):
                continue
            load(ctx, case, 10 ** 8 + i, r, dem, b, g, projname)
            extremes(case, dem)
            query(case, r, dem, g, nx, ny, proj, projname, sh=(ny, nx), pts=pts)
    # positions that are exact numbers: at a sample only that sample counts
    for i in range(ctx.n(30, 400)):
        g = [float(r.randint(400, 600) * 1024), 2. ** r.randint(-2, 4), 0., float(r.randint(3000, 5000) * 1024), 0., -2. ** r.randint(-2, 4)]
        nx, ny = r.randint(2, 7), r.randint(2, 7)
        nod = r.choice([-9999., 0., -32.])
        a = np.array([[r.choice([nod, r.randint(1, 99), nod - r.randint(1, 9)]) for _ in range(nx)] for _ in range(ny)]).astype(r.choice(["float32", "float64", "int32"]))
        a[0, 0] = 5
        m = r.choice([None, None, "nearest"])
        case = ctx.case("exact-%d" % i, g=enc(g))
        dem, err = opened(ctx, case, 3 * 10 ** 7 + i, r, a, g, "utm18n", nod, None, m)
        if err:
            continue
        extremes(case, dem)
        for sh in ((ny, nx), (r.randint(1, 8),)):
            p = [[x, y] for y in range(ny) for x in range(nx)] if sh == (ny, nx) else [[r.randint(0, 4 * nx - 1) / 4, r.randint(0, 4 * ny - 1) / 4] for _ in range(sh[0])]
            query(case, r, dem, g, nx, ny, PROJS["utm18n"](), "utm18n", sh=sh, pts=[[g[0] + x * g[1], g[3] + y * g[5]] for x, y in p], exact=True)
    # heights above the geoid
    for i in range(ctx.n(50, 600)):
        projname = r.choice(list(EPSG))
        g, proj = geot_for(r, projname), PROJS[projname]()
        q = abs(g[1]) + abs(g[2])
        g = [g[0], q, 0., g[3], 0., -q]
        nx, ny = r.randint(2, 7), r.randint(2, 7)
        dt = r.choice(["float32", "float64", "int16", "int32"])
        a = np.array([[r.randint(0, 900) for _ in range(nx)] for _ in range(ny)]).astype(dt)
        nod = r.choice([None, -9999.0, -9999.0, 12345.0])
        if nod is not None:
            for _ in range(r.randint(1, nx * ny // 2)):
                a[r.randrange(ny), r.randrange(nx)] = nod
            a[0, 0] = 7
        filenod, argnod = (nod, None) if r.random() < .6 else (r.choice([None, 5000.0]), nod)
        case = ctx.case("geoid-%d" % i, g=enc(g))
        n = 2 * 10 ** 7 + i
        dem, err = opened(ctx, case, n, r, a, g, projname, filenod, argnod, r.choice([None, "nearest"]), keep=True)
        if err:
            continue
        src = os.path.join(ctx.scratch, "dem%d.tif" % n)
        for k in range(r.randint(1, 2)):
            src = convert(ctx, case, 10 * n + k, r, dem, g, nx, ny, proj, src, dt[0] != "f")
            query(case, r, dem, g, nx, ny, proj, projname)
            extremes(case, dem)
        frame(case, dem, proj, None)
    for i in range(ctx.n(60, 600)):
        z = r.choice([0, r.randint(-100, 5000), r.uniform(-100, 5000)])
        case = ctx.case("const-%d" % i, g=[])
        dem, err = guard(r.choice([lambda: DemFactory.constant_elevation(z), lambda: DemFactory.constant_elevation(elevation=z), lambda: ConstantElevationDem(z)]) if z else r.choice([DemFactory.constant_elevation, ConstantElevationDem]))
        if not err:
            frame(case, dem, None, None)
            if r.random() < .5:
                p, ref = PROJS[r.choice(["utm18n", "wgs84"])](), r.choice([5773, 4979])
                dem.set_projection(p)
                dem.set_reference(ref)
                frame(case, dem, p, ref)
        for sh in ((), None, (2, 3)):
            sh = S.shape_for(r) if sh is None else sh
            cnt = int(np.prod(sh)) if sh else 1
            x, y = S.shaped([r.uniform(-180, 180) for _ in range(cnt)], sh), S.shaped([r.uniform(-90, 90) for _ in range(cnt)], sh)
            kw = {"world_proj": PROJS["utm18n"]()} if r.random() < .4 else {}
            res, e = guard(dem.get_elevations, x, y, **kw) if not err else (None, err)
            ext, e2 = guard(lambda: [dem.get_highest_alt(), dem.get_lowest_alt(), dem.get_mean_alt()])
            ext = ext or [0, 0, 0]
            D.obs1(case, "const", res, err or e or e2, sh, z=num(z), hi=enc(ext[0]), lo=enc(ext[1]), mean=enc(ext[2]))
    # unknown methods
    path = D.write_raster(os.path.join(ctx.scratch, "m.tif"), np.ones((2, 2)), [0, 1, 0, 0, 0, -1], 32618)
    for m in ("cubic", "", "Nearest ", "neareast", "bilinearx"):
        case = ctx.case("method-" + m, g=[])
        _, err = guard(DemFactory.from_gtiff_file, path, interpolation_method=m)
        case.ev("reject", err=err)
    ctx.judge("Dem_Trace")
