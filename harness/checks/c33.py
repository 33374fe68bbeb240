"""C33: reference systems: local zones, projections from text, converted geometries, shifts, cut-outs."""
import os

import gdal
import numpy as np
import osr
from pyproj import Proj
from shapely.geometry import LineString, MultiPoint, MultiPolygon, Point, Polygon

from geo import reproject
from imgdrv import PROJS, crsobs
from vf import enc, guard, num
import orthos as O
from resippy.image_objects.earth_overhead.geotiff.geotiff_image import GeotiffImage
from resippy.image_objects.image_factory import ImageFactory
from resippy.utils import geom_utils, proj_utils
from resippy.utils import photogrammetry_utils as pu

ASSUMPTIONS = ["projections as the library builds them (longitude before latitude)", "shifts in web-mercator metres",
               "WGS 84; other systems only through their own projection", "cut-outs along the cells of the source"]
WGS = PROJS["wgs84"]()


def system(r):
    k = r.randrange(4)
    if k == 0:
        return {"k": "deg"}, Proj(init="epsg:4326")
    if k == 1:
        return {"k": "merc"}, Proj(init="epsg:3857")
    z, s = r.randint(1, 60), r.random() < .5
    if k == 2:
        return {"k": "utm", "zone": z, "south": s}, Proj(proj="utm", zone=z, south=s, ellps="WGS84")
    return {"k": "utm", "zone": z, "south": s}, Proj("EPSG:%d" % ((32700 if s else 32600) + z))


def near(r, s, n):
    """Positions where the system is fit for use."""
    if s["k"] == "utm":
        m = 6 * s["zone"] - 183
        lat = r.uniform(-79, 0) if s["south"] else r.uniform(0, 83)
        lon = m + r.uniform(-3, 3)
    else:
        lon, lat = r.uniform(-175, 175), r.uniform(-78, 78)
    return [[lon + r.uniform(-.5, .5), max(-79.5, min(83.5, lat + r.uniform(-.5, .5)))] for _ in range(n)]


def place(proj, q):
    return [[float(v) for v in proj(*p)] for p in q] if proj.srs != WGS.srs else [[float(v) for v in p] for p in q]


def back(proj, p):
    """Positions of points, proposed by the projection library; the specification confirms them."""
    if proj.srs == WGS.srs:
        return [list(v) for v in p]
    return [[float(v) for v in proj(v[0], v[1], inverse=True)] for v in p]


def zone(r, case, lon, lat):
    proj, err = guard(proj_utils.decimal_degrees_to_local_utm_proj, lon, lat)
    q = [[min(180., max(-180., lon + r.uniform(-.4, .4))), max(-80., min(84., lat + r.uniform(-1, 1)))] for _ in range(3)]
    if abs(lon) > 179.5:        # the zones either side of the date line run into each other there
        q = [[-179. if lon < 0 or lon == 180 else 179., lat]]
    v, err = guard(lambda: [[float(c) for c in proj(*p)] for p in q]) if not err else (None, err)
    case.ev("zone", err=err, lon=num(lon), lat=num(lat), q=enc(q), v=enc(v) if not err else [])


def text(r, case):
    s, _ = system(r)
    srs = osr.SpatialReference()
    how = r.randrange(3)
    if s["k"] == "deg":
        srs.ImportFromEPSG(4326)
    elif s["k"] == "merc":
        srs.ImportFromEPSG(3857)
    elif how == 0:
        srs.ImportFromProj4("+proj=utm +zone=%d %s+datum=WGS84 +units=m" % (s["zone"], "+south " if s["south"] else ""))
    else:
        srs.ImportFromEPSG((32700 if s["south"] else 32600) + s["zone"])
    q = near(r, s, 3)
    want = []
    if r.random() < .3:
        name = r.choice(["lccft", "tmerc", "utm33s"])
        p = PROJS[name]()
        srs = osr.SpatialReference()
        srs.ImportFromProj4(p.srs)
        s = {"k": "other"}
        q = [[r.uniform(-100, -75), r.uniform(30, 45)] for _ in range(3)] if name != "utm33s" else [[r.uniform(13, 17), r.uniform(-40, -2)] for _ in range(3)]
        want = [[float(v) for v in p(*a)] for a in q]
    wkt = srs.ExportToWkt() if r.random() < .7 else srs.ExportToWkt(["FORMAT=WKT1_GDAL"])

    def put(make):
        def f():
            p = make(wkt)
            return place(p, q) if s["k"] == "deg" else [[float(v) for v in p(*a)] for a in q]
        return f
    for make in (proj_utils.wkt_to_proj, lambda w: Proj(proj_utils.wkt_to_proj_string(w))):
        v, err = guard(put(make))
        if not err and s["k"] == "deg":
            p = make(wkt)
            if not p.crs.is_geographic:
                err = "not-geographic"
        case.ev("wkt", err=err, s=s, q=enc(q), v=enc(v) if not err else [], want=enc(want))
    if s["k"] != "other":
        o, err = guard(lambda: [int(proj_utils.wkt_to_osr_spatialref(wkt).GetUTMZone()), bool(proj_utils.wkt_to_osr_spatialref(wkt).IsGeographic())])
        case.ev("spatial", err=err, s=s, utm=o[0] if not err else 0, geographic=o[1] if not err else False)


def star(r, c, rad, n):
    """A ring around c, every vertex different."""
    a = sorted(r.uniform(0, 2 * np.pi) for _ in range(n))
    return [[c[0] + rad * r.uniform(.6, 1) * np.cos(t), c[1] + rad * r.uniform(.6, 1) * np.sin(t)] for t in a]


def parts(g):
    if g.geom_type == "Point" or g.geom_type == "LineString":
        return [[list(map(float, c[:2])) for c in g.coords]]
    if g.geom_type == "Polygon":
        return [[list(map(float, c[:2])) for c in ring.coords] for ring in [g.exterior] + list(g.interiors)]
    return [p for h in g.geoms for p in parts(h)]


def geometry(r, c, rad):
    k = r.randrange(6)
    if k == 0:
        return Point(c)
    if k == 1:
        return LineString(star(r, c, rad, r.randint(2, 7)))
    if k == 2:
        return MultiPoint(star(r, c, rad, r.randint(2, 5)))
    ring = star(r, c, rad, r.randint(3, 8))
    hole = [[c[0] + (v[0] - c[0]) * .1, c[1] + (v[1] - c[1]) * .1] for v in star(r, c, rad, 4)]
    p = Polygon(ring, [hole] if k == 4 else [])
    if k == 5:
        return MultiPolygon([p, Polygon(star(r, [c[0] + 3 * rad, c[1]], rad, 4))])
    return p


def convert(r, case):
    s, sp = system(r)
    d, dp = system(r)
    if s["k"] == "utm" and d["k"] == "utm":         # the same zone or the next one
        z = min(60, max(1, s["zone"] + r.choice([0, 1, -1])))
        d = {"k": "utm", "zone": z, "south": s["south"] if r.random() < .5 else d["south"]}
        dp = Proj(proj="utm", zone=z, south=d["south"], ellps="WGS84")
    q = near(r, d if d["k"] == "utm" else s, 1)[0]
    if s["k"] == "utm" and d["k"] == "utm":
        q = near(r, s, 1)[0]
    c = place(sp, [q])[0]
    g = geometry(r, c, r.uniform(.001, .3) if s["k"] == "deg" else r.uniform(10, 3e4))
    a = parts(g)
    kept = g.wkb
    h, err = guard(pu.reproject_geometry, g, sp, dp)
    case.ev("convert", err=err, src=s, dst=d, kind=g.geom_type, okind=h.geom_type if not err else "", a=enc(a), b=enc(parts(h)) if not err else [], q=enc([back(sp, p) for p in a]), kept=bool(g.wkb == kept))


def shift(r, case):
    s, sp = system(r)
    n = r.randint(1, 4)
    sh = r.choice([[n], [n, 1], [1, n]])
    p = place(sp, near(r, s, n))
    e, m = r.choice([0., round(r.uniform(-5000, 5000), 2)]), r.choice([0., round(r.uniform(-5000, 5000), 2)])
    xy = np.array(p)
    x, y = xy[:, 0].reshape(sh), xy[:, 1].reshape(sh)
    if n == 1 and r.random() < .5:
        x, y, sh = float(xy[0, 0]), float(xy[0, 1]), []
    res, err = guard(pu.shift_points_by_meters, e, m, sp, x, y)
    b = [[float(u), float(v)] for u, v in zip(np.ravel(res[0]), np.ravel(res[1]))] if not err else []
    case.ev("shift", err=err, src=s, east=num(e), north=num(m), a=enc(p), b=enc(b), q=enc(back(sp, p)), r=enc(back(sp, b)), sh=sh, osh=list(np.shape(res[0])) if not err else [])


def bounds(r, case):
    b = [r.uniform(-180, 5e5), 0, 0, r.uniform(-90, 5e6)]
    b[1], b[2] = b[0] + 10 ** r.uniform(-3, 5), b[3] + 10 ** r.uniform(-3, 5)
    p, err = guard(geom_utils.bounds_2_shapely_polygon, *b)
    case.ev("bounds", err=err, b=enc(b), r=enc([list(map(float, c)) for c in p.exterior.coords]) if not err else [])


def crop(ctx, r, case):
    nx, ny, nb = r.randint(2, 9), r.randint(2, 9), r.choice([1, 1, 2, 3])
    dt = r.choice(["uint8", "uint16", "int16", "int32", "float32", "float64"])
    a = O.pixels_of(r, ny, nx, nb, dt)
    nd = r.choice([0, 200 if dt[0] == "u" else -9999])
    name = r.choice(["utm18n", "webmerc", "tmerc", "wgs84"])
    cell = r.choice([.5, 2., 30.])
    g = [4e5 + 64 * r.randint(0, 99), cell, 0., 4.1e6 + 64 * r.randint(0, 99), 0., -cell]
    if name == "wgs84":
        cell = 2. ** -r.randint(8, 13)
        g = [-75., cell, 0., 40., 0., -cell]
    im = GeotiffImage.init_from_numpy_array(a.copy(), g, PROJS[name](), nd)
    kind = r.randrange(3)
    if kind:
        path = os.path.join(ctx.scratch, "c%d.tif" % r.randrange(10 ** 12))
        im.write_to_disk(path)
        im = ImageFactory.geotiff.from_file(path)
        if kind == 2:           # also looked at
            im.read_all_image_data_from_disk()
            im.get_gdal_mem_datset()
    w, h = r.randint(1, nx + 2), r.randint(1, ny + 2)
    x0, y0 = r.randint(-2, nx - 1), r.randint(-2, ny - 1)
    box = [g[0] + x0 * cell, g[3] - (y0 + h) * cell, g[0] + (x0 + w) * cell, g[3] - y0 * cell]
    fm = {} if r.random() < .5 else {"format": "GTiff"}
    ops = gdal.WarpOptions(outputBounds=box, xRes=cell, yRes=cell, **fm)
    out = os.path.join(ctx.scratch, "w%d.tif" % r.randrange(10 ** 12))

    def cut():
        kw = {} if r.random() < .4 else {"dst_fname": out}
        o = GeotiffImage.gdalwarp_geotiff_image(im, ops, **kw)
        if r.random() < .3:         # another cut-out leaves this one as it is
            o2 = GeotiffImage.init_from_numpy_array(a + 1, g, PROJS[name](), nd)
            k2 = {} if "dst_fname" not in kw or r.random() < .5 else {"dst_fname": out + "2.tif"}
            GeotiffImage.gdalwarp_geotiff_image(o2, ops, **k2)
        v = o.read_all_image_data_from_disk()
        pc = o.get_point_calculator()
        return v, pc.get_geot(), o.get_metadata().get_nodata_val(), crsobs(pc.get_projection()), [o.get_metadata().get_npix_y(), o.get_metadata().get_npix_x(), o.get_metadata().get_n_bands()]
    o, err = guard(cut)
    ok = not err
    pl = lambda z: [[num(v) for v in z[:, :, b].ravel().tolist()] for b in range(z.shape[2])]
    case.ev("crop", err=err, sx=nx, sy=ny, x0=x0, y0=y0, nx=w, ny=h, dt=dt, nodata=num(nd), src=pl(a), v=pl(o[0]) if ok else [], osh=o[4] if ok else [], odt=str(o[0].dtype) if ok else "",
            geot=enc([float(v) for v in o[1]]) if ok else [], want=enc([box[0], cell, 0., box[3], 0., -cell]), ond=enc(o[2]) if ok else "None",
            crs=o[3] if ok else [], wantcrs=crsobs(PROJS[name]()))


def run(ctx):
    r = ctx.rng
    behs = ctx.mc("Crs_MC", "Crs_MC_Deep" if ctx.thorough else "Crs_MC",
                  what="zones over a lattice of the globe tile it; transverse Mercator is symmetric and conformal, its meridian as long as known; the elementary functions satisfy their equations")
    case = None
    for i, b in enumerate(behs if ctx.thorough else r.sample(behs, 160)):
        if i % 10 == 0:
            case = ctx.case("globe-%d" % i)
        zone(r, case, float(b["lon"]), float(b["lat"]))
    for i in range(ctx.n(60, 1500)):
        case = ctx.case("crs-%d" % i)
        for _ in range(3):
            lon, lat = r.uniform(-180, 180), r.uniform(-80, 84)
            if r.random() < .5:         # Norway and Svalbard
                lon, lat = r.uniform(-2, 45), r.uniform(54, 84)
            zone(r, case, lon, lat)
        text(r, case)
        for _ in range(2):
            convert(r, case)
            shift(r, case)
        bounds(r, case)
        crop(ctx, r, case)
    ctx.judge("Crs_Trace")
