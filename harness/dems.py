"""Builds real elevation models together with their description for the specification (Dem.tla, Terrain.tla)."""
import os

import gdal
import numpy as np
import osr

from geo import reproject
from vf import enc, guard, num
from resippy.photogrammetry.dem.abstract_dem import AbstractDem
from resippy.photogrammetry.dem.dem_factory import DemFactory


def write_raster(path, a, g, epsg, nodata=None, others=()):
    """A GeoTIFF written with GDAL itself; further bands, which do not matter, hold others."""
    from osgeo import gdal_array
    ds = gdal.GetDriverByName("GTiff").Create(path, a.shape[1], a.shape[0], 1 + len(others), gdal_array.NumericTypeCodeToGDALTypeCode(a.dtype))
    ds.SetGeoTransform([float(v) for v in g])
    srs = osr.SpatialReference()
    srs.ImportFromEPSG(epsg)
    ds.SetProjection(srs.ExportToWkt())
    for k, b in enumerate([a] + list(others)):
        ds.GetRasterBand(k + 1).WriteArray(b)
    if nodata is not None:
        ds.GetRasterBand(1).SetNoDataValue(float(nodata))
    ds = None
    return path


def write_geoid(path, n0, ex, ny, lon0, lat0, size):
    """A .gtx grid (big-endian header and rows from the south) of the plane n0 + ex * lon + ny * lat, one node a degree."""
    import struct
    a = n0 + ex * (lon0 + np.arange(size))[None, :] + ny * (lat0 + np.arange(size))[:, None]
    with open(path, "wb") as f:
        f.write(struct.pack(">4d2i", lat0, lon0, 1., 1., size, size))
        f.write(a.astype(">f4").tobytes())
    return path


def heights_of(a):
    return [num(v) for v in np.asarray(a).ravel().tolist()]


def obs1(case, op, res, err, sh, **k):
    """Record a one-array result."""
    r, osh = [], []
    if not err:
        try:
            r, osh = [num(float(v)) for v in np.ravel(res)], list(np.shape(res))
        except Exception:
            err = "unreadable-result"
    return case.ev(op, err=err, r=r, osh=osh, sh=list(sh), **k)


class MaxMin(AbstractDem):
    """Terrain that is the maximum of minima of planes (a + b x + c y)."""

    def __init__(self, m, lo, hi, proj):
        super(MaxMin, self).__init__()
        for row in m:                       # short numbers keep the exact arithmetic fast
            for p in row:
                p[:] = [round(p[0] * 1024) / 1024, round(p[1] * 2 ** 24) / 2 ** 24, round(p[2] * 2 ** 24) / 2 ** 24]
        self.m, self.lo, self.hi = m, lo, hi
        self.base = proj                # the heights are given over this projection
        self.set_projection(proj)

    def get_elevations(self, world_x, world_y, world_proj=None):
        x, y = np.asarray(world_x, dtype=float), np.asarray(world_y, dtype=float)
        given = self.get_projection() if world_proj is None else world_proj
        if given is not None and given.srs != self.base.srs:
            x, y = [np.asarray(v) for v in reproject(given, self.base, x, y)]
        return np.max([np.min([a + b * x + c * y for a, b, c in row], axis=0) for row in self.m], axis=0)

    def get_highest_alt(self):
        return self.hi

    def get_lowest_alt(self):
        return self.lo

    def get_mean_alt(self):
        return (self.lo + self.hi) / 2

    def convert_reference(self, dst_fname, dst_epsg_code):
        return None


class Terrain:
    """desc: for the specification; dem: the real model; slope: bound on its slope; lo, hi: its range."""

    def __init__(self, desc, dem, slope, lo, hi, plane=False):
        self.desc, self.dem, self.slope, self.lo, self.hi, self.plane = desc, dem, slope, lo, hi, plane
        self.proj = None                # another projection than the sensor's

    def land(self, proj, xs, ys):
        """Positions in the terrain's own projection, or nothing when it shares the given one."""
        if self.proj is None or self.proj.srs == proj.srs:
            return []
        u, v = reproject(proj, self.proj, np.asarray(xs, dtype=float), np.asarray(ys, dtype=float))
        return enc(np.stack([np.ravel(u), np.ravel(v)], axis=1))

    def at(self, x, y):
        return np.asarray(self.dem.get_elevations(np.asarray(x, dtype=float), np.asarray(y, dtype=float)), dtype=float)


def abroad(r, t, proj):
    """The same terrain, stored in another projection: positions without a projection are read in that one."""
    from imgdrv import PROJS
    others = [PROJS[k]() for k in ("webmerc", "wgs84") if PROJS[k]().srs != proj.srs]
    t.dem.set_projection(r.choice(others))
    return t


def constant(z):
    return Terrain({"k": "const", "z": num(z)}, DemFactory.constant_elevation(z), 0., z, z, True)


def _ridge(r, x0, y0, base, h, w):
    """Two planes that meet over a line through (x0, y0)."""
    a = r.choice([0., np.pi / 2, r.uniform(0, np.pi)])
    s = h / w
    b, c = float(s * np.cos(a)), float(s * np.sin(a))
    return [[base + h - b * x0 - c * y0, b, c], [base + h + b * x0 + c * y0, -b, -c]]


def ridges(r, cx, cy, w, h):
    """Flat ground with up to three ridges, hills or a valley; w: typical half width, h: typical height."""
    lo = r.choice([0., r.uniform(-20, 50)])
    rows, hi, slope = [[[lo, 0., 0.]]], lo, 0.
    for _ in range(r.randint(1, 3)):
        hh, ww = h * r.uniform(.3, 1), w * r.uniform(.3, 1)
        x, y = cx + r.uniform(-w, w), cy + r.uniform(-w, w)
        row = _ridge(r, x, y, lo, hh, ww)
        if r.random() < .5:
            row += _ridge(r, x, y, lo, hh, ww)      # a pyramid
        if r.random() < .3:
            row.append([lo + hh * .6, 0., 0.])      # a plateau
            hi = max(hi, lo + hh * .6)
        else:
            hi = max(hi, lo + hh)
        rows.append(row)
        slope = max(slope, hh / ww)
    return lo, hi, rows, slope


def maxmin(r, cx, cy, w, h, proj):
    lo, hi, rows, slope = ridges(r, cx, cy, w, h)
    dem = MaxMin(rows, lo, hi + 1., proj)
    return Terrain({"k": "mm", "m": enc(rows)}, dem, slope, lo, hi + 1.)


def narrow(r, cx, cy, d, h, ux, uy, reach, proj):
    """Tall ridges about twice the distance d wide, across the direction (ux, uy)."""
    rows, slope = [[[0., 0., 0.]]], 0.
    for _ in range(r.randint(1, 3)):
        hh, ww = h * r.uniform(.7, 1), d * r.uniform(.75, 1.2)
        at = r.uniform(-.2, .8) * reach
        x0, y0 = cx + ux * at, cy + uy * at
        s = hh / ww
        rows.append([[hh - s * ux * x0 - s * uy * y0, s * ux, s * uy], [hh + s * ux * x0 + s * uy * y0, -s * ux, -s * uy]])
        slope = max(slope, s)
    dem = MaxMin(rows, 0., h + 1., proj)
    return Terrain({"k": "mm", "m": enc(rows)}, dem, slope * 1.001, 0., h + 1.)


def tilted(r, cx, cy, w, h, proj):
    k = min(h / w / 4, .25)         # gentle enough for every ray to start above it
    b, c = r.uniform(-1, 1) * k, r.uniform(-1, 1) * k
    rows = [[[h - b * cx - c * cy, b, c]]]
    m = abs(b) + abs(c)             # a line of sight reaches w from the centre, and .8 of its height further
    ext = m * max(w * 4, (w + .8 * h) / (1 - .8 * m) * 1.2)
    dem = MaxMin(rows, h - ext, h + ext, proj)
    return Terrain({"k": "mm", "m": enc(rows)}, dem, float(np.hypot(b, c)), h - ext, h + ext, True)


def raster(r, cx, cy, w, h, scratch, epsg=32618, method="bilinear", v=None, cell=None):
    """A real elevation raster around (cx, cy)."""
    n = r.randint(5, 9)
    if v is None:
        a = np.array([[r.choice([0, 0, round(r.uniform(0, h), 1)]) for _ in range(n)] for _ in range(n)]).astype(r.choice(["float32", "float64", "int16"]))
    else:
        a = np.asarray(v)
    ny, nx = a.shape
    cell = round((cell or 3. * w / n) * 8) / 8
    g = [round(cx - cell * nx / 2), cell, 0., round(cy + cell * ny / 2), 0., -cell]
    path = os.path.join(scratch, "t%d.tif" % r.randrange(10 ** 12))
    write_raster(path, a, g, epsg)
    dem = DemFactory.from_gtiff_file(path, interpolation_method=method)
    os.remove(path)
    f = a.astype(float)
    s = max([float(np.max(np.abs(np.diff(f, axis=k)))) if f.shape[k] > 1 else 0. for k in (0, 1)]) * 2 ** .5 / cell
    return Terrain({"k": "raster", "g": enc(g), "method": method, "d": {"nx": nx, "ny": ny, "v": heights_of(a)}}, dem, s,
                   float(f.min()), float(f.max()))


def foreign(r, cx, cy, w, h, scratch, proj):
    """A real elevation raster in web mercator around a place given in another projection."""
    from imgdrv import PROJS
    other = PROJS["webmerc"]()
    u, v = reproject(proj, other, np.array([cx, cx + w]), np.array([cy, cy]))
    grow = float(np.hypot(u[1] - u[0], v[1] - v[0])) / w
    t = raster(r, float(u[0]), float(v[0]), w * grow, h, scratch, epsg=3857)
    t.proj, t.slope = other, t.slope * grow * 1.1
    return t
