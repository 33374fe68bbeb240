"""C31: camera, stereo, five-camera and geolocation images keep file and memory apart and carry their files' description."""
import os
import struct
from fractions import Fraction

import gdal
import numpy as np
from osgeo import gdal_array
from PIL import Image

import sensors as S
from geo import rat
from imgdrv import PROJS
from vf import enc, guard, num, obs, NOOBS
from resippy.image_objects.earth_overhead.igm.igm_image import IgmImage
from resippy.image_objects.earth_overhead.micasense.micasense_metadata import MicasenseMetadata
from resippy.image_objects.earth_overhead.physical_camera.physical_camera_metadata import PhysicalCameraMetadata
from resippy.image_objects.image_factory import ImageFactory

ASSUMPTIONS = ["a frame-camera image asked for a band of its file while it holds data is left open", "five-camera files are named <name>_<band>.tif", "header times after 1981",
               "files opened with GDAL are not rewritten while open"]
NB = 5
S1 = ["s%d" % k for k in range(1, 6)]
W1 = ["w%d" % k for k in range(1, 6)]


def flat(planes):
    return [[num(v) for v in p.ravel().tolist()] for p in planes]


class Histories:
    def __init__(self, ctx, tag):
        r = self.r = ctx.rng
        self.ctx, self.d = ctx, os.path.join(ctx.scratch, tag)
        self.stored = 0
        os.makedirs(self.d)
        self.ny, self.nx = r.randint(2, 5), r.randint(2, 6)      # the TIFF reader turns single rows into columns
        if r.random() < .04:
            self.ny, self.nx = r.choice([(2, 60), (45, 2)])
        self.dt = r.choice(["uint8", "uint16", "float32", "int32"])
        self.nodata = r.choice([None, 0, 3, -1 if self.dt[0] != "u" else 200])
        self.im, self.loaded, self.kind = {}, {}, {}
        self.names = {}
        self.sens = None
        self.stem = r.choice(["IMG_%04d", "L0_IMG_%04d", "run_%d"]) % r.randint(0, 999)
        m = self.planes()
        self.write_m(m)
        disk = {"m": flat(m)}
        for f in S1:
            p = self.plane()
            Image.fromarray(p).save(self.path(f))
            disk[f] = flat([p])
        self.case = ctx.case(tag, nx=self.nx, ny=self.ny, dt=self.dt, nodata=enc(self.nodata), disk=disk)

    def plane(self):
        r = self.r
        if self.dt == "float32":
            return np.array([r.uniform(-1e4, 1e4) for _ in range(self.nx * self.ny)], dtype="float32").reshape(self.ny, self.nx)
        i = np.iinfo(self.dt)
        return np.array([r.choice([r.randint(0, 99), i.max, i.min, r.randint(i.min, i.max)]) for _ in range(self.nx * self.ny)], dtype=self.dt).reshape(self.ny, self.nx)

    def planes(self):
        return [self.plane() for _ in range(NB)]

    def path(self, f):
        return os.path.join(self.d, "m.tif" if f == "m" else self.base(f))

    def base(self, f):
        return "%s%s_%s.tif" % ("w_" if f[0] == "w" else "", self.stem, f[1])

    def write_m(self, planes):
        ds = gdal.GetDriverByName("GTiff").Create(self.path("m"), self.nx, self.ny, NB, gdal_array.NumericTypeCodeToGDALTypeCode(np.dtype(self.dt)))
        for k, p in enumerate(planes):
            ds.GetRasterBand(k + 1).WriteArray(p)
            if self.nodata is not None:
                ds.GetRasterBand(k + 1).SetNoDataValue(self.nodata)
        # the polynomial of a stereo file lies in the same file
        r = self.r
        q = lambda x: float("%.9g" % x)
        c = [[q(r.uniform(-.05, .05)) for _ in range(20)] for _ in range(4)]
        c[1][0], c[3][0], c[0][1], c[2][2] = 1., 1., q(r.uniform(.7, 1.2)), -q(r.uniform(.7, 1.2))
        o = {"SAMP_SCALE": q(r.uniform(100, 20000)), "SAMP_OFF": q(r.uniform(0, 20000)), "LINE_SCALE": q(r.uniform(100, 20000)), "LINE_OFF": q(r.uniform(0, 20000)),
             "LAT_SCALE": q(r.uniform(.01, .5)), "LAT_OFF": q(r.uniform(-60, 60)), "LONG_SCALE": q(r.uniform(.01, .5)), "LONG_OFF": q(r.uniform(-170, 170)),
             "HEIGHT_SCALE": q(r.uniform(100, 1000)), "HEIGHT_OFF": q(r.uniform(-50, 900))}
        md = {k: "%.15g" % v for k, v in o.items()}
        for k, v in zip(("SAMP_NUM_COEFF", "SAMP_DEN_COEFF", "LINE_NUM_COEFF", "LINE_DEN_COEFF"), c):
            md[k] = " ".join("%.15g" % x for x in v)
        ds.SetMetadata(md, "RPC")
        ds = None
        self.rpc = {"k": "rpc", "sn": enc(c[0]), "sd": enc(c[1]), "ln": enc(c[2]), "ld": enc(c[3]), "sscale": num(o["SAMP_SCALE"]), "soff": num(o["SAMP_OFF"]),
                    "lscale": num(o["LINE_SCALE"]), "loff": num(o["LINE_OFF"]), "latscale": num(o["LAT_SCALE"]), "latoff": num(o["LAT_OFF"]), "lonscale": num(o["LONG_SCALE"]),
                    "lonoff": num(o["LONG_OFF"]), "hscale": num(o["HEIGHT_SCALE"]), "hoff": num(o["HEIGHT_OFF"])}

    def told(self, im, err, own=None):
        if err:
            return {}
        def f():
            m = im.get_metadata()
            t = {"nx": enc(m.get_npix_x()), "ny": enc(m.get_npix_y()), "nb": enc(m.get_n_bands()), "dt": "", "nodata": "None", "name": "",
                 "same": im.metadata is m and im.pointcalc is im.get_point_calculator(), "own": own is not None and m is own}
            if hasattr(m, "get_gdal_datatype") and "gdal_datatype" in m.metadata_dict:
                t["dt"] = str(np.dtype(gdal_array.GDALTypeCodeToNumericTypeCode(m.get_gdal_datatype())))
            if own is None and not isinstance(im, IgmImage):
                t["nodata"], t["name"] = enc(m.get_nodata_val()), enc(m.get_image_name())
            return t
        t, e = guard(f)
        return t or {"nx": -1, "ny": -1, "nb": -1, "dt": e, "nodata": e, "name": e, "same": False, "own": False}

    def keep(self, h, im, kind, err, holds):
        self.im[h], self.kind[h], self.loaded[h] = im, kind, holds
        return err == ""

    def step(self, a):
        r, h, ev = self.r, a.get("h"), self.case.ev
        if a["a"] == "open":
            if a["kind"] == "camera":
                calc = S.geot(r).calc
                im, err = guard(ImageFactory.physical_camera.from_gdal_file_and_single_point_calc, self.path("m"), calc)
                if not err and im.get_point_calculator() is not calc:
                    err = "another-calculator"
            else:
                im, err = guard(ImageFactory.digital_globe.view_ready_stereo.from_file, self.path("m"))
            ev("open", h=h, kind=a["kind"], f="m", err=err, told=self.told(im, err), path=self.path("m"))
            self.keep(h, im, a["kind"], err, False)
        elif a["a"] == "gather":
            names = {"band%d" % (k + 1): self.path(f) for k, f in enumerate(a["fs"])}
            sub, master = [], {}
            pix = r.random() < .5
            for f in a["fs"]:
                sub.append(S.pix4d(r, tilt=Fraction(1, 20), mild=True, alt=1500., proj=PROJS["utm18n"](), key=self.base(f), master=master) if pix else S.opencv(r, tilt=Fraction(1, 20), mild=True, alt=1500.))
            if pix:
                im, err = guard(ImageFactory.micasense.from_image_number_and_pix4d, names, master)
            else:
                params = [dict(s.params, band_number=int(f[1])) for s, f in zip(sub, a["fs"])]
                im, err = guard(ImageFactory.micasense.from_image_number_and_opencv, names, params)
            # the name is that of the first band's file without its band
            first = names["band1"]
            ev("gather", h=h, fs=a["fs"], err=err, told=self.told(im, err), path=first[:-5] + "1.tif")
            self.keep(h, im, "five", err, False)
        elif a["a"] == "store":
            p = self.planes()
            m = MicasenseMetadata()
            m.set_npix_x(self.nx)
            m.set_npix_y(self.ny)
            given = np.stack(p, axis=2)
            kept = given.copy()
            nameless = r.random() < .4          # files of names of its own, none of them another's
            self.stored += 1
            fs = ["u%d_%d" % (self.stored, k) for k in range(1, 6)] if nameless else W1
            im, err = guard(ImageFactory.micasense.from_numpy_and_pix4d, given, m, S.geot(r).calc, self.d, *([] if nameless else [[self.base(f) for f in W1]]))
            if not err and not np.array_equal(given, kept):
                err = "input-changed"
            ev("store", h=h, fs=fs, planes=flat(p), err=err, told=self.told(im, err, m))
            self.keep(h, im, "stored", err, False)
        elif a["a"] == "hold":
            p = self.planes()
            cube = np.stack(p, axis=2)
            if a["kind"] == "array":
                m = PhysicalCameraMetadata()
                m.set_npix_x(self.nx)
                m.set_npix_y(self.ny)
                m.set_n_bands(NB)
                im, err = guard(ImageFactory.physical_camera.from_numpy_array_metadata_and_single_point_calc, cube, m, S.geot(r).calc)
                told = self.told(im, err, m)
            else:
                ll = [np.array([r.uniform(-9, 9) for _ in range(self.nx * self.ny)]).reshape(self.ny, self.nx) for _ in range(2)]
                im, err = guard(IgmImage.from_params, cube, ll[0], ll[1], 0., NB, PROJS["wgs84"]())
                told = self.told(im, err)
            ev("hold", h=h, kind=a["kind"], planes=flat(p), err=err, told=told)
            self.keep(h, im, a["kind"], err, True)
        elif a["a"] == "setall":
            p = self.planes()
            _, err = guard(lambda: self.im[h].set_image_data(np.stack(p, axis=2)))
            ev("setall", h=h, planes=flat(p), err=err)
            self.loaded[h] = True
        elif a["a"] == "setband":
            p = self.plane()
            _, err = guard(lambda: self.im[h].set_image_band(p, a["b"]))
            ev("setband", h=h, b=a["b"], plane=flat([p])[0], err=err)
        else:
            p = self.plane()
            Image.fromarray(p).save(self.path(a["f"]))
            ev("rewrite", f=a["f"], plane=flat([p])[0])

    def look(self, h, all_of_it=False):
        r, im, ev, b = self.r, self.im[h], self.case.ev, self.r.randrange(NB)
        acts = [("mem", lambda: im.get_image_data(), {}), ("memband", lambda: im.get_image_band(b), {"b": b}),
                ("file", lambda: im.read_all_image_data_from_disk(), {}), ("fileband", lambda: im.read_band_from_disk(b), {"b": b})]
        if self.kind[h] == "array":
            acts = acts[:2]
        if self.kind[h] == "camera" and self.loaded[h]:
            acts = acts[:3]
        r.shuffle(acts)
        for op, fn, k in acts if all_of_it else acts[:r.randint(1, len(acts))]:
            o, err = guard(fn)
            ev(op, h=h, err=err, o=NOOBS if err else obs(o), **k)

    def play(self, beh):
        eager = self.r.choice([0, .3, .8])
        for a in beh:
            self.step(a)
            for h in sorted(self.im):
                if self.im[h] is not None and self.r.random() < eager:
                    self.look(h)
        for h in sorted(self.im):
            if self.im[h] is not None:
                self.look(h, True)
        stereo = [h for h in self.im if self.kind[h] == "stereo" and self.im[h] is not None]
        return stereo


def tiff(path, big, date, digits, lat, rlat, lon, rlon):
    """A one-pixel TIFF with time and place in its header; rationals as (numerator, denominator)."""
    e = ">" if big else "<"
    blob, fix = bytearray(b"MM\x00\x2a" if big else b"II\x2a\x00") + bytearray(4), []

    def put(data):
        if len(blob) % 2:
            blob.append(0)
        at = len(blob)
        blob.extend(data)
        return at

    def ifd(entries):
        out = []
        for tag, typ, cnt, val in entries:
            if isinstance(val, bytes):
                val = struct.pack(e + "I", put(val)) if len(val) > 4 else val.ljust(4, b"\0")
            elif typ == 3:
                val = struct.pack(e + "HH", val, 0)
            else:
                val = struct.pack(e + "I", val)
            out.append(struct.pack(e + "HHI", tag, typ, cnt) + val)
        return put(struct.pack(e + "H", len(out)) + b"".join(out) + b"\0\0\0\0")
    text = lambda s: (2, len(s) + 1, s.encode() + b"\0")
    rats = lambda q: (5, len(q), b"".join(struct.pack(e + "II", *x) for x in q))
    px = put(b"\x07\x00")
    exif = ifd([(0x9003,) + text(date), (0x9290,) + text(digits)])
    gps = ifd([(1,) + text(rlat), (2,) + rats(lat), (3,) + text(rlon), (4,) + rats(lon)])
    main = ifd([(0x100, 3, 1, 1), (0x101, 3, 1, 1), (0x102, 3, 1, 8), (0x103, 3, 1, 1), (0x106, 3, 1, 1), (0x111, 4, 1, px), (0x115, 3, 1, 1), (0x116, 3, 1, 1), (0x117, 4, 1, 1),
                (0x8769, 4, 1, exif), (0x8825, 4, 1, gps)])
    blob[4:8] = struct.pack(e + "I", main)
    with open(path, "wb") as f:
        f.write(blob)


def angle(r, top):
    """Degrees, minutes, seconds as headers write them."""
    k = r.randrange(4)
    d, m = r.choice([0, 0, r.randint(0, top), r.randint(0, top), r.randint(0, top)]), r.choice([0, 59, r.randint(0, 59), r.randint(0, 59)])
    if k == 0:
        return [(d, 1), (m, 1), (r.randint(0, 59), 1)]
    if k == 1:
        den = r.choice([10, 100, 10000, 1000000])
        return [(d, 1), (m, 1), (r.randint(0, 60 * den - 1), den)]
    if k == 2:          # decimal minutes
        den = r.choice([100, 10000, 1000000])
        return [(d, 1), (r.randint(0, 60 * den - 1), den), (0, 1)]
    den = r.choice([1000, 1000000])
    return [(r.randint(0, top * den), den), (0, 1), (0, 1)]


def when(ctx, r, i):
    d = os.path.join(ctx.scratch, "when%s%d" % (r.choice(["", ".", "_5.x"]), i))
    os.makedirs(d)
    case = ctx.case("when-%d" % i, nx=1, ny=1, dt="uint8", nodata="None", disk={"m": [[0]]})
    names, heads = {}, []
    for k in range(1, 6):
        date = [r.randint(1982, 2035), r.randint(1, 12), r.randint(1, 28), r.randint(0, 23), r.randint(0, 59), r.randint(0, 59)]
        if r.random() < .2:         # around the turn of a day
            date[3:] = r.choice([[23, 59, 59], [0, 0, 0]])
        digits = "".join(r.choice("0123456789") for _ in range(r.choice([1, 2, 3, 3, 6, 8])))
        if r.random() < .4:
            digits = "0" + digits[1:]
        lat, lon, rlat, rlon = angle(r, 89), angle(r, 179), r.choice("NS"), r.choice("EW")
        names["band%d" % k] = os.path.join(d, "IMG_0001_%d.tif" % k)
        tiff(names["band%d" % k], r.random() < .5, "%04d:%02d:%02d %02d:%02d:%02d" % tuple(date), digits, lat, rlat, lon, rlon)
        heads.append((date, digits, lat, rlat, lon, rlon))
    params = [dict(S.opencv(r, tilt=Fraction(1, 20)).params, band_number=k) for k in range(1, 6)]
    im, err = guard(ImageFactory.micasense.from_image_number_and_opencv, names, params)
    for b in r.sample(range(5), 5):
        date, digits, lat, rlat, lon, rlon = heads[b]
        res, e = (None, err) if err else guard(im.get_gps_timestamp_and_center, b)
        f = dict(gps=0, lon=0, lat=0)
        if not e:
            f, e = guard(lambda: dict(gps=num(float(res["gps_timestamp"])), lon=num(float(res["center"]["lon"])), lat=num(float(res["center"]["lat"]))))
        q = lambda v: [rat(Fraction(*x)) for x in v]
        case.ev("when", err=e, date=date, digits=[int(c) for c in digits], dlat=q(lat), rlat=rlat, dlon=q(lon), rlon=rlon, **(f or dict(gps=0, lon=0, lat=0)))


def run(ctx):
    r = ctx.rng
    behs = ctx.mc("Families_MC", what="all histories of 3 actions over 2 objects of six kinds and eleven files: memory holds the last put, files the last given, one object at a time")
    pick = behs if ctx.thorough else r.sample(behs, 380)
    sim = ctx.mc("Families_MC", "Families_Sim", what="random histories of 9 actions", workers=1, simulate=ctx.n(120, 2500), depth=12)
    stereo = []
    for i, b in enumerate(list(pick) + list(sim)):
        t = Histories(ctx, "hist-%d" % i)
        for h in t.play(b)[:1]:
            s = S.Sensor(t.rpc, t.im[h].get_point_calculator(), PROJS["wgs84"]())
            s.err = ""
            stereo.append((i, s))
        t.im.clear()
    for i in range(ctx.n(60, 800)):
        when(ctx, r, i)
    ctx.judge("Families_Trace")
    for i, s in stereo[:ctx.n(80, 2000)]:
        case = ctx.case("stereo-%d" % i, cams=[s.desc])
        S.px_event(case, r, s)
        got, err = guard(s.calc.bands_coregistered)
        case.ev("coreg", err=err, got=bool(got), want=True)
    ctx.judge("Sensor_Trace")
