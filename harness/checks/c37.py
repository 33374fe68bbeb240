"""C37: what cannot be answered is refused and leaves no trace."""
import os
import shutil
import zlib

import numpy as np
from osgeo import gdal, osr

import dems as D
import sensors as S
from imgdrv import PROJS
from vf import guard, num
from resippy.image_objects.earth_overhead.earth_overhead_point_calculators.pix4d_point_calc import Pix4dPointCalc
from resippy.image_objects.earth_overhead.geotiff.geotiff_image_factory import GeotiffImageFactory
from resippy.image_objects.image_factory import ImageFactory
from resippy.photogrammetry.dem.dem_factory import DemFactory
from resippy.spectral.spectrum_factories.spectrum_factory import SpectrumFactory
from resippy.utils import envi_utils, file_utils, photogrammetry_utils, pix4d_utils
from resippy.utils.image_utils import image_utils

ASSUMPTIONS = ["options other than the documented ones, near misses included", "an error of any kind is a refusal; nothing (None) is too, any other value is an answer",
               "files are compared before and after by their contents"]
TYPES = ["uint8", "int16", "int32", "float32", "float64", "complex64", "complex128", "uint16", "uint32", "int64", "uint64"]
CODES = dict(zip(TYPES, [1, 2, 3, 4, 5, 6, 9, 12, 13, 14, 15]))
NEAR = {"interleave": ["bil", "bip", "bsq", "bil", "bip", "bsq", "BIL", "Bip", "bsq ", "bilinear", "", "b", "bli", "bsqx", "xbip"],
        "warp": ["nearest", "bilinear", "biquadratic", "bicubic", "biquartic", "biquintic", "cubic", "Nearest", "linear", "", "bi", "nearest ", "bisextic", "spline"],
        "heights": ["nearest", "bilinear", "bicubic", "Bilinear", "", "near", "nearest ", "linear"],
        "turn": ["rpy", "ryp", "pry", "pyr", "yrp", "ypr", "RPY", "rp", "", "rrr", "xyz", "rpyr", "opk"]}


class Folder:
    """A scratch folder whose contents are part of every event, beside arrays held in memory."""

    def __init__(self, ctx, case, name):
        self.path, self.case, self.held = os.path.join(ctx.scratch, name), case, {}
        os.makedirs(self.path)

    def at(self, name):
        return os.path.join(self.path, name)

    def look(self):
        w = []
        for d, _, fs in os.walk(self.path):
            for n in fs:
                p = os.path.join(d, n)
                with open(p, "rb") as f:
                    w.append([os.path.relpath(p, self.path), zlib.crc32(f.read()) >> 1])
        for k, get in self.held.items():
            v, err = guard(get)
            w.append(["held " + k, -1 if err else zlib.crc32(np.ascontiguousarray(v).tobytes()) >> 1])
        return sorted(w)

    def spoil(self, fn):
        before = self.look()
        fn()
        self.case.ev("spoil", err="", before=before, after=self.look())

    def ask(self, q, fn, *a, **k):
        before = self.look()
        res, err = guard(fn, *a, **k)
        self.case.ev("ask", err=err, q=q, out="" if err else "nothing" if res is None else "answer", before=before, after=self.look())
        return res


def done(fn):
    def wrapped(*a, **k):
        fn(*a, **k)
        return True
    return wrapped


def cube(rng, t, rank, dims):
    sh = tuple(dims) if rank == 3 else tuple(dims[:2]) if rank == 2 else tuple(dims) + (2,)
    return rng.uniform(0, 100, sh).astype(t)


def envi_write(w, r, rng, name, opt, t, rank, dims, room=True):
    kw = {} if opt == "bil" and r.random() < .3 else {"interleave": opt}
    hdr = name + ".hdr"
    if r.random() < .3:
        hdr = os.path.join(os.path.dirname(name), "head of " + os.path.basename(name) + ".hdr")
        kw["output_header_fname"] = w.at(hdr)
    q = dict(k="envi write", opt=opt, type=t if isinstance(t, str) else t.str, rank=rank, room=room, files=[name, hdr])
    w.ask(q, done(envi_utils.write_envi_image), cube(rng, t, rank, dims), w.at(name), **kw)
    return hdr


def header(w, hdr):
    out = {}
    if os.path.exists(w.at(hdr)):
        with open(w.at(hdr)) as f:
            for line in f:
                if "=" in line:
                    k, v = line.split("=", 1)
                    out[k.strip()] = v.strip()
    return out


def envi_read(w, r, name, hdr):
    h = header(w, hdr)
    lacks = [k for k in ("samples", "lines", "bands", "data type", "interleave") if k not in h]
    there = "image" if os.path.exists(w.at(name)) else "nothing"
    dims = [int(h.get(k, 0)) for k in ("samples", "lines", "bands")]
    q = dict(k="envi read", opt=h.get("interleave", ""), there=there, header=os.path.exists(w.at(hdr)), lacks=lacks, code=int(h.get("data type", 0)), dims=dims,
             bytes=os.path.getsize(w.at(name)) if there == "image" else 0)
    kw = {} if hdr == name + ".hdr" and r.random() < .5 else {"header_file": w.at(hdr)}
    w.ask(q, envi_utils.read_envi_image, w.at(name), **kw)


def rewrite(w, hdr, key, val):
    with open(w.at(hdr)) as f:
        lines = f.read().splitlines()
    out = [l if not l.startswith(key + " ") else "%s = %s" % (key, val) for l in lines if val is not None or not l.startswith(key + " ")]
    with open(w.at(hdr), "w") as f:
        f.write("\n".join(out) + "\n")


def envi_spoil(w, r, name, hdr):
    p = w.at(name)
    how = r.choice(["cut", "grow", "gone", "nohead", "opt", "code", "key", "key", "key", "dim"])
    def go():
        if how == "cut":
            os.truncate(p, max(os.path.getsize(p) - r.choice([1, 2, 4]), 0))
        elif how == "grow":
            with open(p, "ab") as f:
                f.write(b"\0" * 16)
        elif how == "gone":
            os.remove(p)
        elif how == "nohead":
            os.remove(w.at(hdr))
        elif how == "opt":
            rewrite(w, hdr, "interleave", r.choice(["xyz", "bi", "BSQ", "bil bip", "tiled"]))
        elif how == "code":
            rewrite(w, hdr, "data type", r.choice([7, 8, 10, 11, 99, 4, 0]))
        elif how == "key":
            rewrite(w, hdr, r.choice(["samples", "lines", "bands", "data type", "interleave"]), None)
        else:
            rewrite(w, hdr, r.choice(["samples", "lines", "bands"]), r.randint(1, 9))
    w.spoil(go)


def pure(w, r, rng, kind, opt=None):
    opt = r.choice(NEAR[kind]) if opt is None else opt
    q = dict(k=kind, opt=opt)
    if kind == "warp":
        n = r.randint(3, 6)
        x, y = np.meshgrid(np.arange(float(n)), np.arange(float(n)))
        w.ask(q, image_utils.grid_warp_image_band, rng.uniform(0, 9, (8, 8)), x, y, interpolation=opt)
    elif kind == "turn":
        w.ask(q, photogrammetry_utils.create_M_matrix, .1, -.2, .3, order=opt)
    else:
        there = r.choice(["image", "image", "nothing"])
        name = "terrain.tif"
        if there == "image" and not os.path.exists(w.at(name)):
            w.spoil(lambda: D.write_raster(w.at(name), rng.uniform(0, 9, (4, 5)), [500000., 10, 0, 4000000., 0, -10], 32618))
        q["there"] = there
        w.ask(q, DemFactory.from_gtiff_file, w.at(name if there == "image" else "missing.tif"), interpolation_method=opt)


def replay(ctx, r, rng, i, beh):
    """One history of the specification."""
    case = ctx.case("spec-%d" % i)
    w = Folder(ctx, case, "s%d" % i)
    heads, dims = {}, [2, 3, 2]
    for k, opt, f, t, rank in beh:
        name = "image%d" % f
        if k == "envi write":
            ok = opt in ("bil", "bip", "bsq") and t != "bool" and rank == 3
            h = envi_write(w, r, rng, name, opt, t, rank, dims)
            if ok:
                heads[f] = h
        elif k == "envi read":
            envi_read(w, r, name, heads.get(f, name + ".hdr"))
        elif k == "spoil":
            if os.path.exists(w.at(name)):
                w.spoil(lambda: open(w.at(name), "w").write("hello"))
        elif k == "list":
            listing(w, r, opt)
        else:
            pure(w, r, rng, k, opt)


def listing(w, r, opt=None):
    opt = opt or r.choice(["text", "list", "nothing", "number", "tuple", "set", "bytes", "truth"])
    v = {"text": "tif", "list": ["tif", "hdr"], "nothing": None, "number": r.choice([3, 0, 1.5]), "tuple": r.choice([("tif",), ()]), "set": {"tif"}, "bytes": b"tif", "truth": r.choice([True, False])}[opt]
    fn, a = r.choice([(file_utils.get_all_files_in_dir, (w.path, v)), (file_utils.get_files_in_dir_that_start_with, (w.path, "i", v))])
    w.ask(dict(k="list", opt=opt), fn, *a)


def images(ctx, r, rng, i):
    """A GeoTIFF image kept through requests it cannot serve."""
    case = ctx.case("images-%d" % i)
    w = Folder(ctx, case, "g%d" % i)
    ny, nx, nb = r.randint(1, 6), r.randint(1, 6), r.randint(1, 4)
    img = GeotiffImageFactory.from_numpy_array(rng.uniform(0, 99, (ny, nx, nb)).astype(r.choice(["uint8", "float32", "int16"])), [5e5, 2., 0, 4e6, 0, -2.], PROJS["utm18n"]())
    w.held["image"] = img.get_image_data
    w.ask(dict(k="image write", room=True, files=["a.tif"]), done(img.write_to_disk), w.at("a.tif"))
    os.makedirs(w.at("sub"))
    w.spoil(lambda: open(w.at("words.tif"), "w").write("not an image"))
    envi_write(w, r, rng, "e", "bsq", "int16", 3, [ny, nx, nb])
    got = w.ask(dict(k="open", there="image"), GeotiffImageFactory.from_file, w.at("a.tif"))
    en = w.ask(dict(k="open", there="image"), ImageFactory.envi.from_file, w.at("e"), w.at("e.hdr") if r.random() < .5 else None) if os.path.exists(w.at("e.hdr")) else None
    readers = {"geotiff": GeotiffImageFactory.from_file, "terrain": DemFactory.from_gtiff_file, "stereo": ImageFactory.digital_globe.view_ready_stereo.from_file,
               "envi": lambda n: ImageFactory.envi.from_file(n, None), "camera": lambda n: ImageFactory.physical_camera.from_gdal_file_and_single_point_calc(n, None)}
    for _ in range(r.randint(5, 9)):
        k = r.choice(["disk", "disk", "memory", "set", "write", "open", "text", "folders", "listing"])
        b = r.choice([0, nb - 1, nb, nb + 1, -1, -nb, 255])
        if k == "disk":
            im = r.choice([x for x in (got, en) if x is not None] or [None])
            if im is not None:
                w.ask(dict(k="band", b=b, n=nb), im.read_band_from_disk, b)
        elif k == "memory" and b >= 0:
            w.ask(dict(k="band", b=b, n=nb), img.get_image_band, b)
        elif k == "set" and b >= nb:
            w.ask(dict(k="band", b=b, n=nb), done(img.set_image_band), np.zeros((ny, nx)), b)
        elif k == "write":
            room = r.random() < .3
            name = r.choice(["b.tif", os.path.join("sub", "b.tif")]) if room else os.path.join("none", "b.tif")
            if r.random() < .5 or not room:
                w.ask(dict(k="image write", room=room, files=[name]), done(img.write_to_disk), w.at(name))
            else:
                envi_write(w, r, rng, name.replace(".tif", ".dat"), "bip", "float32", 3, [ny, nx, nb])
            if not room and r.random() < .5:
                q = dict(k="envi write", opt="bip", type="float32", rank=3, room=False, files=[])
                w.ask(q, done(envi_utils.write_envi_image), cube(rng, "float32", 3, [2, 2, 2]), w.at(os.path.join("none", "e")), interleave="bip")
        elif k == "open":
            kind = r.choice(sorted(readers))
            name = r.choice(["words.tif", "missing.tif", "sub"])
            w.ask(dict(k="open", there="nothing" if name == "missing.tif" else "text"), readers[kind], w.at(name))
        elif k == "text":
            there = r.random() < .4
            w.ask(dict(k="read text", there="image" if there else "nothing"), file_utils.read_text_list_from_file, w.at("words.tif" if there else "missing.txt"))
        elif k == "folders":
            there = r.random() < .4
            w.ask(dict(k="folders", there="image" if there else "nothing"), file_utils.get_all_folders_in_dir, w.path if there else w.at("missing"))
        elif k == "listing":
            listing(w, r)
    got = en = None


def spectra(ctx, r, rng, i):
    case = ctx.case("spectra-%d" % i)
    w = Folder(ctx, case, "p%d" % i)
    table = "\n".join("%d,%.3f" % (400 + j, rng.uniform()) for j in range(5))
    w.spoil(lambda: open(w.at("s.csv"), "w").write("wave,value\n" + table + "\n"))
    F = SpectrumFactory
    csv = lambda n: F.csv.ascii.CsvAsciiFileFactory.from_csv_file(w.at(n))
    for n, fn in (("s.csv", csv), ("missing.csv", csv), ("missing.sig", lambda n: F.svc.ascii.SvcAsciiFileFactory.from_sig_file(w.at(n))),
                  ("missing.txt", lambda n: F.envi.ascii.EnviAsciiPlotFileFactory.from_ascii_file(w.at(n))), ("missing_AREF.txt", lambda n: F.usgs.ascii.UsgsAsciiSpectralFactory.from_ascii_file(w.at(n)))):
        w.ask(dict(k="read spectrum", there="image" if n == "s.csv" else "nothing"), fn, n)


EXT, CAL, INT, WKT = ("calibrated_external_camera_parameters.txt", "calibrated_camera_parameters.txt", "pix4d_calibrated_internal_camera_parameters.cam", "wkt.prj")


def project(ctx, r, rng, i):
    """A Pix4D project with a part missing or a camera number of two digits."""
    case = ctx.case("project-%d" % i)
    w = Folder(ctx, case, "x%d" % i)
    ncam = r.randint(1, 4)
    digits = r.choice([1, 1, 2, 3])
    keys = ["IMG_%04d_%s.tif" % (k, str(r.randint(1, ncam))) for k in range(r.randint(1, 3))]
    if digits > 1:
        keys[r.randrange(len(keys))] = "IMG_0099_%s.tif" % ("0" * (digits - 1) + "1")
    vec = lambda n: " ".join("%.4f" % x for x in rng.uniform(-1, 1, n))
    def make():
        with open(w.at(EXT), "w") as f:
            f.write("\n".join(["imageName X Y Z Omega Phi Kappa"] + [k + " " + vec(6) for k in keys]) + "\n")
        with open(w.at(CAL), "w") as f:
            f.write("\n".join(["title"] * 8 + [l for k in keys for l in [k + " 1280 960"] + [vec(3)] * 3 + [vec(3), vec(2), vec(3)] + [vec(3)] * 3]) + "\n")
        with open(w.at(INT), "w") as f:
            f.write("\n".join(l for c in range(ncam) for l in ["Pix4D camera calibration file %d" % c, "#Focal Length mm assuming a sensor width of 4.8x3.6mm", "F 5.4", "Px 2.4", "Py 1.8", "K1 0", "K2 0", "K3 0", "T1 0", "T2 0"]) + "\n")
        sr = osr.SpatialReference()
        sr.ImportFromEPSG(32618)
        with open(w.at(WKT), "w") as f:
            f.write(sr.ExportToWkt())
    w.spoil(make)
    missing = r.choice([None, None, EXT, CAL, INT, WKT])
    if missing:
        w.spoil(lambda: os.remove(w.at(missing)))
    kw = {} if r.random() < .6 else dict(external_params_fname=EXT, internal_params_fname=INT, calibrated_params_fname=CAL, wkt_fname=WKT)
    m = w.ask(dict(k="project", there="nothing" if missing else "image", digits=digits), pix4d_utils.make_master_dict, w.path, **kw)
    if m is not None:
        for key in [r.choice(keys), "IMG_7777_1.tif", r.choice(keys).replace(".tif", ""), ""]:
            w.ask(dict(k="camera", opt=key, known=keys), Pix4dPointCalc.init_from_params, key, m)


def run(ctx):
    gdal.PushErrorHandler("CPLQuietErrorHandler")
    r = ctx.rng
    rng = np.random.default_rng(r.randrange(2 ** 31))
    behs = ctx.mc("Requests_MC", what="every history of three requests to a folder of two files, and questions with options in and out of the vocabularies: refusals leave no trace")
    for i, b in enumerate(r.sample(behs, min(len(behs), ctx.n(150, 4000)))):
        replay(ctx, r, rng, i, b["q"])
    for i in range(ctx.n(60, 900)):
        case = ctx.case("envi-%d" % i)
        w = Folder(ctx, case, "e%d" % i)
        for j in range(r.randint(1, 3)):
            name, dims = "cube%d" % r.randint(0, 1), [r.randint(1, 4) for _ in range(3)]
            dims[r.randrange(3)] = r.choice([1, 2, 3])
            if r.random() < .4:
                dims[2] = 1
            h = envi_write(w, r, rng, name, "bil", r.choice(TYPES), 3, dims)
            envi_read(w, r, name, h)
            if r.random() < .6:
                envi_spoil(w, r, name, h)
                envi_read(w, r, name, h)
            t = r.choice(TYPES + ["bool", "int8", "float16", "<U3", np.dtype(">i2"), np.dtype(">f4"), np.dtype("M8[s]")])
            if not (isinstance(t, np.dtype) and t.kind == "M"):
                envi_write(w, r, rng, name, r.choice(NEAR["interleave"]), t, r.choice([3, 3, 3, 2, 4]), dims)
    for i in range(ctx.n(40, 500)):
        case = ctx.case("options-%d" % i)
        w = Folder(ctx, case, "o%d" % i)
        for _ in range(8):
            pure(w, r, rng, r.choice(["warp", "heights", "turn"]))
    for i in range(ctx.n(50, 700)):
        images(ctx, r, rng, i)
    for i in range(ctx.n(10, 100)):
        spectra(ctx, r, rng, i)
    for i in range(ctx.n(40, 500)):
        project(ctx, r, rng, i)
    ctx.judge("Requests_Trace")
