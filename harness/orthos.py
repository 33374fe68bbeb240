"""Images with sensors, terrain and ground rectangles for the orthorectification checks (Ortho.tla)."""
import os
from fractions import Fraction

import gdal
import osr
import numpy as np
from shapely.geometry import Polygon, box as shapely_box

import dems as D
import sensors as S
from checks.c15 import place
from geo import reproject
from imgdrv import PROJS
from vf import enc, guard, num
from resippy.image_objects.earth_overhead.earth_overhead_point_calculators.earth_overhead_sensor_model import EarthOverheadSensorModel
from resippy.image_objects.earth_overhead.physical_camera.physical_camera_metadata import PhysicalCameraMetadata
from resippy.image_objects.image_factory import ImageFactory

DTYPES = ["uint8", "uint16", "int16", "int32", "float32", "float64"]


def write_image(path, a, epsg=None):
    """(ny, nx, nb) written with GDAL itself."""
    from osgeo import gdal_array
    ds = gdal.GetDriverByName("GTiff").Create(path, a.shape[1], a.shape[0], a.shape[2], gdal_array.NumericTypeCodeToGDALTypeCode(a.dtype))
    for b in range(a.shape[2]):
        ds.GetRasterBand(b + 1).WriteArray(a[:, :, b])
    if epsg:
        srs = osr.SpatialReference()
        srs.ImportFromEPSG(epsg)
        ds.SetProjection(srs.ExportToWkt())
        ds.SetGeoTransform([4e5, 2., 0., 4.2e6, 0., -2.])
    ds = None
    return path


def pixels_of(r, ny, nx, nb, dt):
    """Values that tell every pixel and band apart; never the usual nodata values."""
    n = ny * nx * nb
    lo = 1 if dt[0] == "u" else -(n // 3)
    top = 254 if dt == "uint8" else 2 * n
    if r.random() < .3:             # a smooth image
        y, x, b = np.mgrid[0:ny, 0:nx, 0:nb]
        a = 3. + 5 * x + 3 * y + 11 * b
    else:
        a = np.array([r.randint(lo, top) for _ in range(n)], dtype=float).reshape(ny, nx, nb)
    a = np.where(a == 0, 7, a)
    if dt[0] == "f":
        a = a + np.where(a != 0, .25, 0)
    return a.astype(dt)


class Scene:
    """im(kind): an image object over self.a; cams/descs: cameras; cx, cy, w: ground centre and half width; gsd."""

    def __init__(self, ctx, r, tilt=Fraction(3, 20), one=None, nb=None, distorted=True, small=True):
        self.r, self.ctx = r, ctx
        self.nx, self.ny = (r.randint(8, 16), r.randint(8, 14)) if small else (r.randint(20, 300), r.randint(20, 300))
        self.nb = nb or r.choice([1, 2, 3, 4])
        self.dt = r.choice(DTYPES)
        self.a = pixels_of(r, self.ny, self.nx, self.nb, self.dt)
        self.proj = PROJS["utm18n"]()
        k = r.randrange(6)
        npix = (self.nx, self.ny)
        self.err = ""
        self.sensors = []
        kinds = [S.opencv, S.pix4d] if distorted else []
        alt = r.choice([120., 900., 2500.])
        if one is None:
            one = self.nb == 1 or r.random() < .6
        if k < 2 and (one or k == 0):
            q = r.uniform(.5, 6)
            g = [5e5 + r.uniform(-4e4, 4e4), q, r.uniform(-.2, .2) * q, 4.4e6 + r.uniform(-1e6, 1e6), r.uniform(-.2, .2) * q, -q * r.uniform(.7, 1.4)]
            if r.random() < .4:
                g[2] = g[4] = 0.
            if r.random() < .35:        # in degrees
                self.proj = PROJS["wgs84"]()
                g = [-75 + r.uniform(-2.5, 2.5), g[1] * 1e-5, g[2] * 1e-5, r.uniform(5, 60), g[4] * 1e-5, g[5] * 1e-5]
            self.sensors.append(S.geot(r, g=g, proj=self.proj, npix=npix))
            if not one:             # bands that lie differently on the ground
                for _ in range(self.nb - 1):
                    f = 1 + r.uniform(-.05, .05)
                    h = [g[0] + r.uniform(-3, 3) * g[1], g[1] * f, g[2], g[3] + r.uniform(-3, 3) * g[5], g[4], g[5] * f]
                    self.sensors.append(S.geot(r, g=h, proj=self.proj, npix=npix))
        else:
            # a frame camera, or one per band, of one kind over one place
            kind = r.choice(kinds + [S.fpa])
            if kind is S.fpa:
                s = S.fpa(r, tilt=tilt, via="local", alt=alt, proj=self.proj, npix=npix)
            elif kind is S.opencv:
                s = S.opencv(r, tilt=tilt, mild=True, alt=alt, npix=npix)
                if not s.err:
                    s.calc.set_projection(self.proj)
            else:
                s = S.pix4d(r, tilt=tilt, mild=True, alt=alt, proj=self.proj, npix=npix)
            s.proj = self.proj
            self.sensors = [s] if s.err or one else [s] + [twin(r, s, self.proj) for _ in range(self.nb - 1)]
        self.err = next((s.err for s in self.sensors if s.err), "")
        self.single = len(self.sensors) == 1
        if self.err:
            return
        self.frame()

    def frame(self):
        s = self.sensors[0]
        if s.desc["k"] == "geot":
            g = s.calc.get_geot()
            self.cx, self.cy = g[0] + self.nx / 2 * g[1] + self.ny / 2 * g[2], g[3] + self.nx / 2 * g[4] + self.ny / 2 * g[5]
            self.w, self.gsd, self.tan = max(self.nx, self.ny) / 2 * abs(g[1]), abs(g[1]), 0.
        else:
            d = s.M.T @ np.array([0, 0, -1.])
            h = s.pos[2]
            self.cx, self.cy = [s.pos[k] - d[k] / d[2] * h for k in (0, 1)]
            self.w = min(s.half, .6) * h / abs(d[2])
            self.gsd = self.w * 2 / max(self.nx, self.ny)
            self.tan = float(np.hypot(d[0], d[1]) / abs(d[2])) + s.half * 1.5
            for q in self.sensors:
                q.calc.set_approximate_lon_lat_center(self.cx, self.cy)

    def calc(self):
        if self.single:
            return self.sensors[0].calc
        m = EarthOverheadSensorModel()
        m.set_point_calcs([s.calc for s in self.sensors])
        m.set_projection(self.proj)
        m._bands_coregistered = False
        m.set_approximate_lon_lat_center(self.cx, self.cy)
        return m

    def metadata(self):
        m = PhysicalCameraMetadata()
        m.set_npix_x(self.nx)
        m.set_npix_y(self.ny)
        m.set_n_bands(self.nb)
        return m

    def image(self, kind):
        """memory | disk | loaded | geotiff-memory | geotiff-disk"""
        calc = self.calc()
        if kind == "memory":
            return ImageFactory.physical_camera.from_numpy_array_metadata_and_single_point_calc(self.a.copy(), self.metadata(), calc)
        path = os.path.join(self.ctx.scratch, "im%d.tif" % self.r.randrange(10 ** 12))
        if kind == "geotiff":       # a GeoTIFF image whose data were replaced, under another sensor
            write_image(path, self.a[::-1, ::-1].copy(), 32618)
            im = ImageFactory.geotiff.from_file(path)
            im.set_point_calculator(calc)
            im.set_image_data(self.a.copy())
            os.remove(path)
            return im
        write_image(path, self.a)
        im = ImageFactory.physical_camera.from_gdal_file_and_single_point_calc(path, calc)
        if kind == "loaded":
            im.set_image_data(im.read_all_image_data_from_disk())
        os.remove(path)
        return im

    def src(self):
        return [{"nx": self.nx, "ny": self.ny, "v": [num(v) for v in self.a[:, :, b].ravel().tolist()]} for b in range(self.nb)]

    def descs(self):
        return [s.desc for s in self.sensors]

    def degrees(self):
        return self.sensors[0].desc["k"] == "geot" and abs(self.sensors[0].calc.get_geot()[0]) <= 180

    def terrain(self, flat=None, world=False):
        r = self.r
        k = r.randrange(5) if flat is None else (0 if flat else r.randrange(1, 5))
        if self.degrees():
            k = 0
        h = self.gsd * r.uniform(1, 8)
        if k == 0:
            return D.constant(r.choice([0, 0, round(r.uniform(-20, 60), 2)]))
        if k == 3 and r.random() < .6:
            return D.foreign(r, self.cx, self.cy, self.w, h, self.ctx.scratch, self.proj)
        if k in (1, 2) and not world:
            return D.maxmin(r, self.cx, self.cy, self.w, h, self.proj)
        return D.raster(r, self.cx, self.cy, self.w, h, self.ctx.scratch)

    def box(self, r):
        """A ground rectangle: around, inside, overlapping or beside the imaged ground."""
        k = r.randrange(8)
        f = r.uniform(.2, 1.6)
        w, h = self.w * f, self.w * f * r.uniform(.4, 1.6)
        ox, oy = (0, 0) if k < 4 else (self.w * r.uniform(-1, 1), self.w * r.uniform(-1, 1))
        if k == 7:
            ox = self.w * r.choice([-6, 6])
        u = 2 ** 30 if self.degrees() else 64
        q = lambda v: round(v * u) / u
        return [q(self.cx + ox - w), q(self.cy + oy - h), q(self.cx + ox + w), q(self.cy + oy + h)]


def twin(r, s0, proj):
    """Another camera of the same kind close to s0: a different lens and a slightly different pose."""
    d = dict(s0.desc)
    k = d["k"]
    if k == "fpa":
        import resippy.image_objects.earth_overhead.earth_overhead_point_calculators.ideal_pinhole_fpa_local_utm_point_calc as m
        from geo import half_angle
        t = [Fraction(q) + Fraction(r.randint(-10, 10), 1000) for q in d["t"][:2]] + [Fraction(d["t"][2])]
        from geo import rat
        f = float(Fraction(d["f"])) * r.uniform(.95, 1.05)
        x, y = float(Fraction(d["x"])) + r.uniform(-3, 3), float(Fraction(d["y"])) + r.uniform(-3, 3)
        d.update(t=[rat(q) for q in t], f=num(f), x=num(x), y=num(y), flipx=r.random() < .5, flipy=r.random() < .5)
        kw = dict(alt_units=d["zu"], focal_length_units=d["fu"], pixel_pitch_x_units=d["ppxu"], pixel_pitch_y_units=d["ppyu"], flip_x=d["flipx"], flip_y=d["flipy"])
        fl = lambda n: float(Fraction(d[n]))
        calc, err = guard(m.IdealPinholeFpaLocalUtmPointCalc.init_from_local_params, x, y, fl("z"), proj, *[half_angle(q) for q in t], d["nx"], d["ny"],
                          fl("ppx"), fl("ppy"), f, **kw)
        s = S.Sensor(d, calc, proj, [x, y, s0.pos[2]], S.mat(t), s0.half)
    elif k == "opencv":
        import resippy.image_objects.earth_overhead.earth_overhead_point_calculators.opencv_point_calc as m
        from geo import half_angle
        p = dict(s0.params)
        p["cx_pixels"] += r.uniform(-3, 3)
        p["cy_pixels"] += r.uniform(-3, 3)
        p["x_offset_meters"] += r.uniform(-1, 1)
        xyz = [float(Fraction(v)) for v in d["xyz"]]
        t = [Fraction(q) for q in d["t"]]

        def build():
            c = m.OpenCVPointCalc.init_from_params(p)
            c.init_extrinsic(*xyz, *[half_angle(q) for q in t])
            c.set_projection(proj)
            return c
        calc, err = guard(build)
        arm = [p["x_offset_meters"], p["y_offset_meters"], p["z_offset_meters"]]
        d.update(cx=num(p["cx_pixels"]), cy=num(p["cy_pixels"]), arm=enc(arm))
        s = S.Sensor(d, calc, proj, [float(v) for v in np.array(xyz) + np.array(arm) @ S.mat(t)], s0.M, s0.half)
    else:
        import resippy.image_objects.earth_overhead.earth_overhead_point_calculators.pix4d_point_calc as m
        w, ny, nx = float(Fraction(d["fpaw"])), None, d["nx"]
        px, py = float(Fraction(d["px"])) + r.uniform(-.02, .02) * w, float(Fraction(d["py"])) + r.uniform(-.02, .02) * w
        xyz = [float(Fraction(v)) for v in d["xyz"]]
        xyz[0] += r.uniform(-2, 2)
        M = np.array([float(Fraction(v)) for v in d["m"]]).reshape(3, 3)
        master = {"projection": proj, "A.tif": {"camera_rotation_r": M, "external_params": xyz + [1., 2., 3.], "n_x_pixels": nx, "n_y_pixels": nx,
                  "internal_params": {"F": float(Fraction(d["f"])), "Px": px, "Py": py, "fpa_width_mm": w, "fpa_height_mm": w},
                  "radial_distortion": [float(Fraction(v)) for v in d["rd"]], "tangential_distortion": [float(Fraction(v)) for v in d["td"]]}}
        calc, err = guard(m.Pix4dPointCalc.init_from_params, "A.tif", master, None if d["model"] == "None" else d["model"])
        d.update(px=num(px), py=num(py), xyz=enc(xyz), revx=True, revy=True)
        s = S.Sensor(d, calc, proj, xyz, s0.M, s0.half)
    s.err = err
    return s


def raster_of(case, op, g, err, **k):
    """Record a GeoTIFF image object."""
    f = dict(osh=[], v=[], odt="", geot=[], proj="", ond="None", blend=False)
    if not err:
        try:
            a = g.get_image_data()
            md = g.get_metadata()
            f = dict(osh=list(a.shape), v=[[num(v) for v in a[:, :, b].ravel().tolist()] for b in range(a.shape[2])], odt=str(a.dtype),
                     geot=[num(float(v)) for v in g.get_point_calculator().get_geot()], blend=False,
                     proj=g.get_point_calculator().get_projection().srs, ond=enc(md.get_nodata_val()))
            if [md.get_npix_x(), md.get_npix_y(), md.get_n_bands()] != [a.shape[1], a.shape[0], a.shape[2]]:
                f["osh"] = [md.get_npix_y(), md.get_npix_x(), md.get_n_bands()]
        except Exception as x:
            err = "unreadable-result"
    f.update(k)
    return case.ev(op, err=err, **f)
