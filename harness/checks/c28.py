"""C28: Pix4D parameter files are read into the right camera parameters."""
import math
import os
from fractions import Fraction

import numpy as np
from osgeo import osr

import sensors as S
from imgdrv import PROJS, crsobs
from vf import enc, guard, num
from resippy.utils import pix4d_utils as pu
from resippy.image_objects.earth_overhead.earth_overhead_point_calculators.pix4d_point_calc import Pix4dPointCalc

ASSUMPTIONS = ["each image is listed once in the external and in the calibrated file", "the camera number is the last character of the image's stem",
               "blank lines at the end of the calibrated file, anywhere in the others"]
EXT, CAL, INT, WKT = ("calibrated_external_camera_parameters.txt", "calibrated_camera_parameters.txt", "pix4d_calibrated_internal_camera_parameters.cam", "wkt.prj")
KEYS = ["F", "Px", "Py", "K1", "K2", "K3", "T1", "T2"]
EPSG = {"utm18n": 32618, "utm33s": 32733, "wgs84": 4326}


def tok(x):
    return repr(float(x)) if float(x) != int(float(x)) else "%d" % x


def row(key, cam, vals):
    return {"kind": "row", "key": key, "cam": cam, "v": [num(float(x)) for x in vals], "x": [float(x) for x in vals]}


TITLE = {"kind": "title", "key": "", "cam": 0, "v": []}
BLANK = {"kind": "blank", "key": "", "cam": 0, "v": []}


def text(r, lines, name):
    out = []
    for i, l in enumerate(lines):
        x = l.get("x", l["v"])
        if l["kind"] == "blank":
            out.append("")
        elif l["kind"] == "title":
            out.append(r.choice(["imageName X Y Z Omega Phi Kappa", "fileName imageWidth imageHeight", "camera matrix K [3x3]", "radial distortion [3x1]", "tangential distortion [2x1]"]))
        elif l["kind"] == "start":
            out.append(r.choice(["Pix4D camera calibration file %d", "Pix4D camera calibration file %d", "# Pix4D camera calibration file %d", "camera %d of Pix4D"]) % r.randint(0, 3))
        elif l["kind"] == "size":
            out.append("#Focal Length mm assuming a sensor width of %sx%smm" % tuple(tok(v) for v in x))
        elif l["kind"] == "note":
            out.append("#Principal Point mm")
        else:
            out.append(" ".join(([l["key"]] if l["key"] else []) + [tok(v) for v in x]))
    with open(name, "w", newline="") as f:
        nl = r.choice(["\n", "\n", "\r\n"])
        f.write(nl.join(out) + (nl if r.random() < .8 else ""))


def calobs(key, d):
    return {"key": key, "size": [num(d["n_x_pixels"]), num(d["n_y_pixels"])], "k": nums(d["camera_matrix_k"]), "radial": nums(d["radial_distortion"]),
            "tangential": nums(d["tangential_distortion"]), "t": nums(d["camera_position_t"]), "r": nums(d["camera_rotation_r"])}


def nums(a):
    return [num(float(x)) for x in np.ravel(np.asarray(a, dtype=float))]


def intobs(d):
    return {"size": [num(float(d.get("fpa_width_mm", "nan"))), num(float(d.get("fpa_height_mm", "nan")))],
            "vals": {k: num(float(v)) for k, v in d.items() if k not in ("fpa_width_mm", "fpa_height_mm")}}


def project(ctx, r, case, lines, pn, tans=None):
    """Write the four files and read them every way; returns the master dictionary."""
    base = os.path.join(ctx.scratch, "p%d" % len(os.listdir(ctx.scratch)))
    os.makedirs(base)
    names = {}
    plain = r.random() < .5
    for k, n in (("ext", EXT), ("cal", CAL), ("int", INT), ("wkt", WKT)):
        names[k] = r.choice(["", "run7_"]) + n if plain else r.choice(["", "x"]) + k + ".dat"
        if k != "wkt":
            text(r, lines[k], os.path.join(base, names[k]))
    if plain:       # other files beside them
        for n in r.sample(["notes.txt", "camera_parameters.cam", "other_wkt.prj.aux", "pix4d_calibrated_internal_camera_parameters.cam.bak", "calibrated_camera_parameters.txt~", "local.prj", "pmatrix.txt"], r.randint(0, 4)):
            with open(os.path.join(base, n), "w") as f:
                f.write("nothing\n")
    elif r.random() < .5:
        k = r.choice(sorted(names))
        d = r.choice(["params", os.path.join("a", "b")])
        os.makedirs(os.path.join(base, d))
        if k != "wkt":
            os.rename(os.path.join(base, names[k]), os.path.join(base, d, names[k]))
        names[k] = os.path.join(d, names[k])
    sr = osr.SpatialReference()
    sr.ImportFromEPSG(EPSG[pn])
    with open(os.path.join(base, names["wkt"]), "w") as f:
        f.write(sr.ExportToWkt())
    path = {k: os.path.join(base, n) for k, n in names.items()}
    calc = Pix4dPointCalc()
    d, err = guard(r.choice([pu, calc]).read_calibrated_external_camera_parameters, path["ext"])
    case.ev("ext", err=err, rows=[] if err else [{"key": k, "v": nums(v)} for k, v in d.items()])
    d, err = guard(pu.read_calibrated_camera_parameters, path["cal"])
    rows, err2 = guard(lambda: [calobs(k, v) for k, v in d.items()]) if not err else (None, err)
    case.ev("cal", err=err2, rows=rows or [])
    d, err = guard(r.choice([pu, calc]).read_pix4d_calibrated_internal_camera_parameters, path["int"])
    rows, err2 = guard(lambda: [intobs(v) for v in d]) if not err else (None, err)
    case.ev("int", err=err2, rows=rows or [])
    kw = {} if plain else dict(external_params_fname=names["ext"], internal_params_fname=names["int"], calibrated_params_fname=names["cal"], wkt_fname=names["wkt"])
    m, err = guard(pu.make_master_dict, base, **kw)

    def observe():
        rows = []
        for k, v in m.items():
            if k == "projection":
                continue
            o = calobs(k, v)
            o.update(ext=nums(v["external_params"]), int=intobs(v["internal_params"]), tans=(tans or {}).get(k, []), rcomp=nums(v["r_matrix_computed"]))
            rows.append(o)
        return dict(rows=rows, crs=crsobs(m["projection"]))
    f, err2 = guard(observe) if not err else (None, err)
    case.ev("master", err=err2, **(f or {}))
    return m if not err2 else None


def strip(lines):
    return {k: [{a: b for a, b in l.items() if a != "x"} for l in v] for k, v in lines.items()}


def run(ctx):
    r = ctx.rng
    behs = ctx.mc("PixFiles_MC", what="the three files of three images and two cameras written in every order with blank lines: every image once, with its own numbers")
    for i, b in enumerate(behs if ctx.thorough else r.sample(behs, min(80, len(behs)))):
        lines = b["f"]
        ren = {n: "IMG_%s_%d.tif" % (n, l["cam"]) for l in lines["cal"] for n in [l["key"]] if n}
        for k in ("cal", "ext"):
            for l in lines[k]:
                l["key"] = ren.get(l["key"], l["key"])
        case = ctx.case("lines-%d" % i, f=lines, crs=crsobs(PROJS["utm18n"]()))
        project(ctx, r, case, lines, "utm18n")
    for i in range(ctx.n(70, 1200)):
        pn = r.choice(["utm18n", "utm33s"])
        ncam, nimg = r.randint(1, 9), r.randint(1, 7) if i % 14 != 3 else r.randint(20, 60)
        sensors, cal, ext, tans = {}, [], [], {}
        ints = []
        camd = []
        for c in range(ncam):
            s = S.pix4d(r)
            w, fl, ppx, ppy = [float("%.10g" % float(Fraction(s.desc[k]))) for k in ("fpaw", "f", "px", "py")]
            camd.append(s)
            ints += [dict(TITLE, kind="start")] + ([BLANK] if r.random() < .3 else []) + [dict(TITLE, kind="size", v=[num(w), num(.75 * w)], x=[w, .75 * w]), row("F", 0, [fl])] \
                + ([dict(TITLE, kind="note")] if r.random() < .5 else []) + [row(k, 0, [v]) for k, v in zip(KEYS[1:], [ppx, ppy] + [r.uniform(-.1, .1) for _ in range(5)])] \
                + ([BLANK] if r.random() < .5 else [])
        for n in range(nimg):
            c = r.randrange(ncam)
            s = S.pix4d(r, npix=(camd[c].desc["nx"], r.randint(200, 1500)))
            key = "%s_%04d_%d.%s" % (r.choice(["IMG", "DJI", "site.4_IMG", "v1.2"]), n, c + 1, r.choice(["tif", "JPG"]))
            t = S.tans(r)
            xyz = [float(v) for v in s.pos]
            cal += [row(key, c + 1, [camd[c].desc["nx"], r.randint(200, 1500)])] + [row("", 0, [r.uniform(-4000, 4000) for _ in range(3)]) for _ in range(3)] \
                + [row("", 0, [r.uniform(-.2, .2) for _ in range(3)]), row("", 0, [r.uniform(-.01, .01) for _ in range(2)]), row("", 0, [x + r.uniform(-1, 1) for x in xyz])] \
                + [row("", 0, list(s.M[j])) for j in range(3)]
            ext.append(row(key, 0, xyz + [math.degrees(S.half_angle(q)) + r.choice([0, 0, 0, 360, -360]) for q in t]))
            tans[key] = [S.rat(q) for q in t]
            sensors[key] = s
        r.shuffle(ext)
        for _ in range(r.randint(0, 2)):
            ext.insert(r.randint(0, len(ext)), BLANK)
        lines = {"ext": [TITLE] + ext, "cal": [TITLE] * 8 + cal + [BLANK] * r.choice([0, 0, 1, 2]), "int": ints}
        case = ctx.case("project-%d" % i, f=strip(lines), crs=crsobs(PROJS[pn]()))
        m = project(ctx, r, case, lines, pn, tans)
        if m is None:
            continue
        keys = [l["key"] for l in cal if l["key"]]
        for key in r.sample(keys, min(2, len(keys))):
            s = sensors[key]
            pts = s.points(r, r.randint(1, 4))
            model = r.choice(["regular", None])

            way = r.choice(["calc", "calc", "world", "world default"])
            rev = [r.random() < .5, r.random() < .5] if way == "world" else [True, True]

            def px():
                calc = Pix4dPointCalc.init_from_params(r.choice([key, "/data/" + key]), m, model)
                xyz = [np.array([p[j] for p in pts]) for j in range(3)]
                if way == "calc":
                    x, y = calc.lon_lat_alt_to_pixel_x_y(*xyz)
                else:
                    kw = {}
                    if way == "world":
                        calc.reverse_x_pixels, calc.reverse_y_pixels = rev
                        kw = dict(distortion_model=model, reverse_x_pixels=rev[0], reverse_y_pixels=rev[1])
                    x, y = calc.world_xyzs_to_pixel_locations(*xyz, **kw)
                return dict(r=[nums(x), nums(y)], crs=crsobs(calc.get_projection()))
            f, err = guard(px)
            case.ev("px", err=err, i=keys.index(key) + 1, model=str(None if way == "world default" else model), rev=rev, pts=enc(pts), **(f or {}))
        if i % 4 == 0:
            want = [{"key": k, "v": [r.uniform(-1e4, 1e4) for _ in range(12)]} for k in keys]
            name = os.path.join(ctx.scratch, "pm%d.txt" % i)
            with open(name, "w") as f:
                f.write("\n".join(w["key"] + " " + " ".join(repr(x) for x in w["v"]) for w in want) + r.choice(["", "\n"]))
            d, err = guard(pu.read_p_matrices, name)
            case.ev("pm", err=err, want=[{"key": w["key"], "v": nums(w["v"])} for w in want], rows=[] if err else [{"key": k, "v": nums(v)} for k, v in d.items()])
    ctx.judge("PixFiles_Trace")
