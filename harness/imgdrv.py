"""Drives real GeoTIFF image objects and records ImageStore events."""
import os

import numpy as np
from osgeo import gdal_array
from pyproj import Proj
import osr

from vf import enc, guard, num, obs, NOOBS
from resippy.image_objects.earth_overhead.geotiff.geotiff_image_factory import GeotiffImageFactory
from resippy.image_objects.image_factory import ImageFactory

REF = [(-75.0, 40.0), (12.25, -33.5), (-96.0, 38.0)]

PROJS = {
    "wgs84": lambda: Proj(init="epsg:4326"),
    "webmerc": lambda: Proj(init="epsg:3857"),
    "utm18n": lambda: Proj("EPSG:32618"),
    "utm1n": lambda: Proj("EPSG:32601"),
    "utm33s": lambda: Proj(proj="utm", zone=33, south=True, ellps="WGS84"),
    "lccft": lambda: Proj("+proj=lcc +lat_1=33 +lat_2=45 +lat_0=39 +lon_0=-96 +x_0=0 +y_0=0 +datum=NAD83 +units=us-ft",
                          preserve_units=True),
    "tmerc": lambda: Proj("+proj=tmerc +lat_0=40 +lon_0=-75 +k=0.9996 +x_0=1000 +y_0=2000 +ellps=GRS80 +units=m"),
}


def crsobs(proj):
    out = []
    for lon, lat in REF:
        x, y = proj(lon, lat)
        out += [num(float(x)), num(float(y))]
    return out


def px_of(a):
    """Flat pixels in (row, col, band) order; complex samples as [re, im]."""
    a = np.asarray(a)
    if a.dtype.kind == "c":
        return [[num(z.real), num(z.imag)] for z in a.ravel().tolist()]
    return [num(v) for v in a.ravel().tolist()]


def meta_of(a, geot, proj, nodata):
    ny, nx = a.shape[:2]
    nb = a.shape[2] if a.ndim == 3 else 1
    return {"nx": nx, "ny": ny, "nb": nb, "dt": str(a.dtype), "cplx": a.dtype.kind == "c",
            "nodata": enc(nodata), "geot": enc([float(g) for g in geot]), "crs": crsobs(proj)}


def read_meta(im):
    md, pc = im.get_metadata(), im.get_point_calculator()
    return {"nx": enc(md.get_npix_x()), "ny": enc(md.get_npix_y()), "nb": enc(md.get_n_bands()),
            "dt": str(np.dtype(gdal_array.GDALTypeCodeToNumericTypeCode(md.get_gdal_datatype()))),
            "nodata": enc(md.get_nodata_val()), "geot": enc([float(g) for g in pc.get_geot()]),
            "crs": crsobs(pc.get_projection())}


def read_ds_meta(ds):
    srs = osr.SpatialReference()
    srs.ImportFromWkt(ds.GetProjection())
    b = [ds.GetRasterBand(i + 1) for i in range(ds.RasterCount)]
    nod = [enc(x.GetNoDataValue()) for x in b]
    dts = [str(np.dtype(gdal_array.GDALTypeCodeToNumericTypeCode(x.DataType))) for x in b]
    return {"nx": ds.RasterXSize, "ny": ds.RasterYSize, "nb": ds.RasterCount,
            "dt": dts[0] if len(set(dts)) == 1 else "mixed",
            "nodata": nod[0] if all(n == nod[0] for n in nod) else "mixed",
            "geot": enc([float(g) for g in ds.GetGeoTransform()]),
            "crs": crsobs(Proj(srs.ExportToProj4(), preserve_units=True))}


BADMETA = {"nx": -1, "ny": -1, "nb": -1, "dt": "", "nodata": "err", "geot": [], "crs": []}


class Store:
    """One history: named objects A, B, C and files p, q, r in a scratch directory."""

    def __init__(self, ctx, case, d):
        self.case, self.d = case, d
        self.im = {}
        self.copy = True        # hand over copies of the caller's arrays
        os.makedirs(d, exist_ok=True)

    def path(self, p):
        return os.path.join(self.d, p + ".tif")

    def _meta(self, im, err):
        if err:
            return BADMETA
        m, e2 = guard(read_meta, im)
        return BADMETA if e2 else m

    def new(self, h, a, geot, proj, nodata=None, via=None):
        give = a.copy() if self.copy else a
        f = (via or GeotiffImageFactory).from_numpy_array
        im, err = guard(f, give, geot, proj, nodata)
        self.im[h] = im
        self.case.ev("new", h=h, meta=meta_of(a, geot, proj, nodata), px=px_of(a), err=err, m=self._meta(im, err))

    def open(self, h, p, via=None):
        im, err = guard((via or GeotiffImageFactory).from_file, self.path(p))
        self.im[h] = im
        name, e2 = ("", err) if err else guard(lambda: im.get_metadata().get_image_name())
        self.case.ev("open", h=h, p=p, err=err, m=self._meta(im, err), name="" if e2 else str(name), file=self.path(p), ext=os.path.splitext(self.path(p))[1])

    def setall(self, h, a):
        _, err = guard(lambda: self.im[h].set_image_data(a.copy() if self.copy else a))
        self.case.ev("setall", h=h, px=px_of(a), err=err)

    def setband(self, h, b, plane):
        _, err = guard(lambda: self.im[h].set_image_band(plane.copy(), b))
        self.case.ev("setband", h=h, b=b, plane=px_of(plane), err=err)

    def reref(self, h, geot, proj):
        pc = self.im[h].get_point_calculator()
        _, err = guard(lambda: (pc.set_geot(geot), pc.set_projection(proj)))
        self.case.ev("reref", h=h, geot=enc([float(g) for g in geot]), crs=crsobs(proj), err=err, m=self._meta(self.im[h], err))

    def write(self, h, p, compression=None):
        kw = {} if compression is None else {"compression": compression}
        _, err = guard(lambda: self.im[h].write_to_disk(self.path(p), **kw))
        self.case.ev("write", h=h, p=p, comp=str(compression), err=err)

    def _o(self, op, h, fn, **k):
        r, err = guard(fn)
        self.case.ev(op, h=h, err=err, o=NOOBS if err else obs(r), **k)

    def mem(self, h):
        self._o("mem", h, lambda: self.im[h].get_image_data())

    def memband(self, h, b):
        self._o("memband", h, lambda: self.im[h].get_image_band(b), b=b)

    def file(self, h):
        self._o("file", h, lambda: self.im[h].read_all_image_data_from_disk())

    def fileband(self, h, b):
        self._o("fileband", h, lambda: self.im[h].read_band_from_disk(b), b=b)

    def meta(self, h):
        self.case.ev("meta", h=h, m=self._meta(self.im[h], ""))

    def memds(self, h):
        ds, err = guard(lambda: self.im[h].get_gdal_mem_datset())
        if err:
            self.case.ev("memds", h=h, err=err, o=NOOBS, m=BADMETA)
            return
        cube = np.stack([ds.GetRasterBand(i + 1).ReadAsArray() for i in range(ds.RasterCount)], axis=2)
        m, e2 = guard(read_ds_meta, ds)
        self.case.ev("memds", h=h, err="", o=obs(cube), m=BADMETA if e2 else m)


DTYPES = ["uint8", "int8", "int16", "uint16", "int32", "uint32", "int64", "uint64", "float32", "float64", "complex64",
          "complex128"]


def random_array(r, shape, dt):
    """Distinct-ish values over the type's whole range, extremes included."""
    dt = np.dtype(dt)
    n = int(np.prod(shape))
    if dt.kind in "iu":
        ii = np.iinfo(dt)
        v = [r.choice([ii.min, ii.max, 0, 1]) if r.random() < .15 else r.randint(ii.min, ii.max) for _ in range(n)]
        return np.array(v, dtype=dt).reshape(shape)
    if dt.kind == "f":
        v = [r.choice([0., -0.5, 1e-30, 3e38, float("nan")]) if r.random() < .1 else r.uniform(-1e4, 1e4) for _ in range(n)]
        return np.array(v, dtype=dt).reshape(shape)
    v = [complex(r.randint(-999, 999), r.randint(-999, 999) + .5) for _ in range(n)]
    return np.array(v, dtype=dt).reshape(shape)


def random_geot(r):
    k = r.randrange(4)
    if k == 0:
        return [r.uniform(-180, 180), 10 ** r.uniform(-6, 1), 0, r.uniform(-90, 90), 0, -10 ** r.uniform(-6, 1)]
    if k == 1:      # south-up
        return [r.uniform(2e5, 8e5), r.uniform(.1, 30), 0, r.uniform(1e6, 5e6), 0, r.uniform(.1, 30)]
    if k == 2:      # rotated
        a, s = r.uniform(0, 6.28), r.uniform(.1, 10)
        return [r.uniform(2e5, 8e5), s * np.cos(a), s * np.sin(a), r.uniform(1e6, 5e6), s * np.sin(a), -s * np.cos(a)]
    return [float(r.randint(-500, 500)), float(r.randint(1, 9)), 0., float(r.randint(-500, 500)), 0., -float(r.randint(1, 9))]
