"""C03: ENVI images and headers read back what was written."""
import os

import numpy as np

from vf import guard, num
from resippy.image_objects.image_factory import ImageFactory
from resippy.utils import envi_utils

ASSUMPTIONS = ["headers of one entry per line or braced value, without comments or repeated keys", "one header beside each image", "image objects are opened over files of two bytes or more (gdal opens no smaller one)"]
TYPES = ["uint8", "int16", "int32", "float32", "float64", "complex64", "complex128", "uint16", "uint32", "int64", "uint64"]
CODES = {"uint8": 1, "int16": 2, "int32": 3, "float32": 4, "float64": 5, "complex64": 6, "complex128": 9, "uint16": 12, "uint32": 13, "int64": 14, "uint64": 15}


def codes(s):
    return [ord(c) for c in s]


def bits(a):
    """Each sample as its bits."""
    a = np.ascontiguousarray(a)
    return [x.tobytes().hex() for x in a.ravel()]


def cube(r, rng, ny, nx, nb, t):
    dt = np.dtype(t)
    n = ny * nx * nb
    if dt.kind in "iu":
        i = np.iinfo(dt)
        v = rng.integers(i.min, i.max, n, dtype=dt, endpoint=True)
        if r.random() < .4:
            v = (np.arange(n) % (int(i.max) + 1)).astype(dt)
    else:
        v = rng.normal(0, 10.0 ** r.randint(-3, 6), n).astype(dt)
        if dt.kind == "c":
            v = v + (1j * rng.normal(0, 3, n)).astype(dt)
        elif r.random() < .3:
            v[rng.integers(0, n)] = r.choice([np.inf, -np.inf, -0.0, np.finfo(dt).max])
    a = v.astype(dt).reshape(ny, nx, nb)
    how = r.choice(["plain", "plain", "fortran", "turned", "part"])
    if how == "fortran":
        a = np.asfortranarray(a)
    elif how == "turned":
        a = np.ascontiguousarray(a.transpose(2, 0, 1)).transpose(1, 2, 0)
    elif how == "part":
        b = np.zeros((ny, 2 * nx, nb + 1), dt)
        b[:, ::2, 1:] = a
        a = b[:, ::2, 1:]
    return a


def header_case(case, path, text, newline="\n"):
    with open(path, "w", newline="") as f:
        f.write(text.replace("\n", newline))
    d, err = guard(envi_utils.read_envi_header, path)
    out = []
    for k, v in ([] if err else d.items()):
        e = {"key": codes(str(k)), "kind": "text", "val": [], "num": 0, "nums": []}
        if isinstance(v, np.ndarray):
            e["kind"], e["nums"] = "numbers", [num(x) for x in v.ravel()]
        elif isinstance(v, (int, float)):
            e["kind"], e["num"] = "number", num(v)
        else:
            v = str(v)
            e["val"] = codes(v.strip().strip("{}").strip() if v.lstrip()[:1] == "{" else v)        # braced values may keep their braces
        out.append(e)
    case.ev("header", err=err, text=codes(text), r=out)


def observe(r, fname, hdr):
    arg = {} if hdr is None else {r.choice(["header_fname"]): hdr}
    im = ImageFactory.envi.from_file(fname, **arg)
    m = im.get_metadata()
    size = [int(m.get_npix_y()), int(m.get_npix_x()), int(m.get_n_bands())]
    order = list(range(size[2]))
    r.shuffle(order)
    bands = {b: bits(im.read_band_from_disk(b)) for b in order}
    a = im.read_all_image_data_from_disk()
    im.set_image_data(a)
    return dict(size=size, shape=list(a.shape), dtype=str(a.dtype), vals=bits(a), bands=[bands[b] for b in range(size[2])],
                set=[bits(im.get_image_band(b)) for b in range(size[2])])


def words(r, n):
    return " ".join("".join(r.choice("abcXYZ019.:/_-(),") for _ in range(r.randint(1, 7))).strip(",") or "w" for _ in range(n))


def numbers(r, n):
    return [r.choice(["%.3f", "%g", "%.5e", "%d", "%.2f"]) % r.choice([r.uniform(0, 2500), r.uniform(0, 1), r.uniform(-5, 5)]) for _ in range(n)]


def render(r, entries):
    """A header text of the entries in some style."""
    t = "ENVI\n"
    for key, val in entries:
        while r.random() < .15:
            t += r.choice(["", " ", "\t"]) + "\n"
        eq = r.choice([" = ", "=", "  = ", " =", "= ", "\t= "])
        if isinstance(val, str):
            t += r.choice(["", "", " "]) + key + eq + val + r.choice(["", "", " "]) + "\n"
        else:
            sep = r.choice([", ", ",", ",\n ", ",\n", " , "])
            br = r.choice(["", " ", "\n", "\n  "])
            t += key + eq + "{" + br + sep.join(val) + r.choice(["", "\n", " "]) + "}" + "\n"
    while r.random() < .2:
        t += r.choice(["", "  "]) + "\n"
    return t[:-1] if r.random() < .3 else t


PLAIN = ["file type", "sensor type", "wavelength units", "acquisition time", "reflectance scale factor", "cloud cover", "complex function", "data ignore value", "dem file", "security tag", "my own key"]
INTS = ["x start", "y start", "header offset", "byte order"]
BRACED = ["description", "band names", "map info", "coordinate system string", "default bands", "class names", "bbl", "geo points", "rpc info"]


def more_entries(r, nb, offsets):
    es = []
    for k in r.sample(PLAIN, r.randint(0, 4)):
        es.append((k, r.choice([words(r, r.randint(1, 3)), "a = b", "x=y", "", "2012-05-11T10:20:30Z", str(r.randint(-9, 9))])))
    for k in r.sample(INTS[:4 if offsets else 2], r.randint(0, 2)):
        es.append((k, str(r.choice([0, 1, 12, 1024, -3 if k.endswith("start") else 7]))))
    for k in r.sample(BRACED, r.randint(0, 4)):
        es.append((k, r.choice([[words(r, 1) for _ in range(r.randint(1, 4))], ["a=1", "b = 2"], ["UTM, 1.000, 1.000, 500000.000, 4.1e6", "units=Meters"]])))
    for k in ("wavelength", "fwhm"):
        if r.random() < .5:
            es.append((k, numbers(r, nb)))
    return es


def run(ctx):
    r = ctx.rng
    rng = np.random.default_rng(ctx.seed)
    behs = ctx.mc("Envi_MC", "Envi_MC_Deep" if ctx.thorough else None, what="layouts of every small shape are bijections that read back; headers built entry by entry in every style parse into their entries")
    hdr = os.path.join(ctx.scratch, "b.hdr")
    for k, b in enumerate(r.sample(behs, min(len(behs), 30000 if ctx.thorough else 400))):
        header_case(ctx.case("styles-%d" % k, names=[]), hdr, "".join(chr(c) for c in b["text"]))
    for i in range(ctx.n(120, 3000)):
        es = [("samples", str(r.randint(1, 9999))), ("lines", str(r.randint(1, 99999))), ("bands", str(r.randint(1, 300))), ("data type", str(r.choice(list(CODES.values())))),
              ("interleave", r.choice(["bil", "BSQ", "bip"]))][:r.randint(1, 5)] + more_entries(r, r.choice([1, 2, 40]), True)
        r.shuffle(es)
        if r.random() < .2:
            es = [(k.title() if r.random() < .5 else k, v) for k, v in es]
        header_case(ctx.case("header-%d" % i, names=[]), hdr, render(r, es), r.choice(["\n", "\n", "\r\n"]))
    # every shape to 3 in each interleave, then random histories of files
    shapes = [(y, x, b) for y in (1, 2, 3) for x in (1, 2, 3) for b in (1, 2, 3)]
    plan = [[(s, i, r.choice(TYPES), "write")] for s in shapes for i in ("bil", "bip", "bsq")] + [[((2, 3, 4), i, t, how)] for i in ("bil", "bip", "bsq") for t in TYPES for how in ("write", "given")]
    for _ in range(ctx.n(40, 900)):
        plan.append([((r.randint(1, 9), r.randint(1, 9), r.choice([1, 2, 3, 5, 8])), r.choice(["bil", "bip", "bsq"]), r.choice(TYPES), r.choice(["write", "write", "given"])) for _ in range(r.randint(1, 4))])
    for how, axis in [(h, x) for _ in range(ctx.n(1, 12)) for h in ("write", "given") for x in (0, 1, 2)]:      # many of one of them
        for inter in ("bil", "bip", "bsq"):
            s = [r.choice([2, 3]) for _ in range(3)]
            s[axis] = r.choice([16, 50, 128, 260])
            plan.append([(tuple(s), inter, r.choice(TYPES), how)])
    for k, steps in enumerate(plan):
        d = os.path.join(ctx.scratch, "e%d" % k)
        os.makedirs(d)
        names = r.sample(["scene.img", "two.words.bip", "plain", "raw.dat", "x"], 2)
        case = ctx.case("images-%d" % k, names=names)
        heads = {}
        for shape, inter, t, how in steps:
            name = r.choice(names)
            fn = os.path.join(d, name)
            a = cube(r, rng, *shape, t)
            before = bits(a)
            if name not in heads:
                heads[name] = r.choice([None, fn + ".hdr"] + ([fn[:-4] + ".hdr"] if name[-4:-3] == "." else []))
            h = heads[name]
            path = h or fn + ".hdr"
            const = dict(name=name, ny=shape[0], nx=shape[1], nb=shape[2], dtype=t, inter=inter, cube=before)
            if how == "write":
                kw = {}
                if h is not None:
                    kw["output_header_fname"] = h
                if inter != "bil" or r.random() < .5:
                    kw["interleave"] = inter
                _, err = guard(envi_utils.write_envi_image, a, fn, **kw)
                const.update(after=bits(a), file=[] if err else bits(np.fromfile(fn, t)), header=[] if err else codes(open(path).read()))
            else:
                err = ""
                raw = np.empty(shape, t)
                raw[...] = a
                raw = np.ascontiguousarray({"bil": raw.transpose(0, 2, 1), "bip": raw, "bsq": raw.transpose(2, 0, 1)}[inter])
                order, offset = r.choice([0, 0, 1, 1]), r.choice([0, 0, 1, 7, 16, 100, 513])
                data = rng.bytes(offset) + raw.astype(raw.dtype.newbyteorder(">" if order else "<")).tobytes()
                with open(fn, "wb") as f:
                    f.write(data)
                const.update(order=order, offset=offset, file=list(data), bytes=list(np.ascontiguousarray(a).astype(np.dtype(t).newbyteorder("<")).tobytes()))
                es = [("samples", str(shape[1])), ("lines", str(shape[0])), ("bands", str(shape[2])), ("data type", str(CODES[t])),
                      ("interleave", r.choice([inter, inter.upper()]))] + [e for e in more_entries(r, shape[2], False) if e[0] in ("description", "wavelength", "fwhm", "sensor type", "band names")]
                es += [("byte order", str(order))] if order or r.random() < .5 else []
                es += [("header offset", str(offset))] if offset or r.random() < .5 else []
                r.shuffle(es)
                with open(path, "w") as f:
                    f.write(render(r, es))
            case.ev(how, err=err, **const)
            for n in [name] + [m for m in heads if m != name and r.random() < .5]:
                fn, h = os.path.join(d, n), heads[n]
                b, err = guard(envi_utils.read_envi_image, *([fn] if r.random() < .5 else [fn, h or fn + ".hdr"]))
                case.ev("read", err=err, name=n, **({} if err else dict(shape=list(b.shape), dtype=str(b.dtype), vals=bits(b))))
                if os.path.getsize(fn) < 2:
                    continue    # gdal itself opens no file of a single byte
                o, err = guard(observe, r, fn, r.choice([None, h or fn + ".hdr"]))
                case.ev("image", err=err, name=n, **(o or {}))
    ctx.judge("Envi_Trace")
