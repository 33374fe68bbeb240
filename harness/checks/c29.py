"""C29: colour mapping, normalisation and blending follow their linear definitions."""
from fractions import Fraction

import numpy as np
import seaborn

from vf import guard, num
from resippy.utils.image_utils import image_utils as iu

ASSUMPTIONS = ["images that are not constant, without not-a-number", "two bins or more, limits in order", "the colour of nodata pixels is left open; both colours at the border of two steps",
               "whole-number outputs are cut off, within a hair"]


def nums(a):
    return [num(x) for x in np.ravel(np.asarray(a)).tolist()]


def opt(x):
    return [] if x is None else [num(x)]


def frac(x):
    return num(x) if isinstance(x, (int, float, np.number)) else "%d/%d" % (x.numerator, x.denominator)


def colour(case, img, P, exact, m=None, smooth=True, lo=None, hi=None, nodata=None, dt=None, palette=None):
    kw = {}
    for k, v in (("n_bins", m), ("min_clip", lo), ("max_clip", hi), ("nodata", nodata), ("output_dtype", dt)):
        if v is not None:
            kw[k] = v
    if not smooth:
        kw["continuous"] = False
    if palette != "default":
        kw["color_palette"] = P
    kept, keptP = img.copy(), np.array(P)
    r, err = guard(iu.apply_colormap_to_grayscale_image, img, **kw)
    f = {}
    if not err:
        f, err = guard(lambda: dict(r=nums(r), osh=list(r.shape), dt=str(r.dtype)))
    case.ev("colour", err=err, v=nums(img), ny=img.shape[0], nx=img.shape[1], P=exact, m=m or 0, smooth=smooth, lo=opt(lo), hi=opt(hi), nodata=opt(nodata),
            wantdt=np.dtype(dt or np.uint8).name, whole=np.dtype(dt or np.uint8).kind in "ui", unchanged=bool(np.array_equal(img, kept) and np.array_equal(np.array(P), keptP)),
            **(f or {}))


def run(ctx):
    r = ctx.rng
    behs = ctx.mc("Colormap_MC", what="palettes of two or three colours, bins, limits and values on a grid: ends, equal steps, midpoints, same palette again")
    for i, b in enumerate(behs if ctx.thorough else r.sample(behs, min(180, len(behs)))):
        P = [[float(Fraction(x)) for x in c] for c in b["P"]]
        img = np.array([[b["lo"], b["hi"], 0, 1], [r.randint(-1, 6), r.randint(0, 4), 4, 2]], dtype=r.choice(["float64", "int16", "float32"]))
        colour(ctx.case("beh-%d" % i), img, np.array(P), b["P"], b["m"] or None, b["smooth"], b["lo"], b["hi"], dt=r.choice([None, np.float64]))
    for i in range(ctx.n(160, 3000)):
        case = ctx.case("rand-%d" % i)
        ny, nx = (r.randint(1, 6), r.randint(2, 6)) if i % 20 != 4 else r.choice([(1, 90), (70, 2)])
        dt = r.choice(["float64", "float64", "float32", "uint8", "int16", "uint16", "int32", "int8"])
        if dt[0] == "f":
            sc = 10 ** r.uniform(-3, 5)
            vals = [r.choice([r.uniform(-1, 1) * sc, r.randint(-8, 8) / 8 * sc]) for _ in range(ny * nx)]
        else:
            info = np.iinfo(dt)
            w = r.choice([1, .1]) if dt != "int32" else 1e-4
            a, z = int(info.min * w), int(info.max * w)
            vals = [r.choice([r.randint(a, z), a, z, r.randint(0, 9)]) for _ in range(ny * nx)]
        img = np.array(vals, dtype=dt).reshape(ny, nx)
        if len(set(img.ravel().tolist())) < 2:
            img[0, 0], img[0, 1] = 1, 2
        n = r.randint(2, 9) if r.random() < .93 else r.randint(100, 300)
        if r.random() < .3:
            P, pal = seaborn.color_palette(r.choice(["GnBu_r", "viridis", "RdBu_r"]), n_colors=n), "given"
            if r.random() < .3:
                P, pal = seaborn.color_palette("GnBu_r"), "default"
        else:
            P, pal = np.array([[r.choice([0, 1, r.random(), r.randint(0, 255) / 255]) for _ in range(3)] for _ in range(n)]), "given"
        exact = [[num(float(x)) for x in c] for c in np.asarray(P, dtype=float)]
        lo = hi = nd = None
        srt = sorted(set(img.ravel().tolist()))
        if r.random() < .5:
            span = srt[-1] - srt[0]
            lo = r.choice([None, srt[0], srt[0] + span * r.uniform(0, .4), srt[0] - span * .3])
            hi = r.choice([None, srt[-1], srt[-1] - span * r.uniform(0, .4), srt[-1] + span * .2])
            if lo is not None and dt[0] != "f" and r.random() < .5:
                lo = int(lo)
        if r.random() < .3:
            nd = r.choice([img.ravel()[r.randrange(img.size)].item(), -9999, 0])
            good = [v for v in srt if v != nd]
            if len(good) < 2 or (lo if lo is not None else good[0]) >= (hi if hi is not None else good[-1]):
                nd = None
        colour(case, img, P, exact, r.choice([None, None, r.randint(2, 12), r.randint(2, 12) if r.random() < .8 else r.randint(100, 300)]), r.random() < .6, lo, hi, nd, r.choice([None, None, np.float64, np.uint8, np.uint16]), pal)
        a, b = r.choice([(0, 255), (0, 1), (-1, 1), (255, 0), (r.uniform(-50, 50), r.uniform(51, 99))])
        od = r.choice([None, "uint8" if min(a, b) >= 0 else "int16", "float32"])
        kept = img.copy()
        res, err = guard(lambda: iu.normalize_grayscale_image(img, a, b, *([np.dtype(od)] if od else [])))
        case.ev("normal", err=err, v=nums(img), ny=ny, nx=nx, a=num(a), b=num(b), wantdt=od or "", whole=bool(od) and od[0] != "f", unchanged=bool(np.array_equal(img, kept)),
                r=[] if err else nums(res), osh=[] if err else list(np.shape(res)), dt="" if err else str(res.dtype))
        sh = r.choice([(ny, nx), (ny, nx, 3)])
        u, v = [np.array([r.randint(0, 255) for _ in range(int(np.prod(sh)))]).reshape(sh).astype(r.choice(["uint8", "float64", "int32", "float32"])) for _ in range(2)]
        w = r.choice([.5, .25, .75, r.random(), 1, 0, 1.])
        ku, kv = u.copy(), v.copy()
        res, err = guard(lambda: iu.blend_images(u, v) if w == .5 else iu.blend_images(u, v, w))
        case.ev("blend", err=err, u=nums(u), v=nums(v), w=num(w), sh=list(sh), osh=[] if err else list(np.shape(res)), r=[] if err else nums(res),
                unchanged=bool(np.array_equal(u, ku) and np.array_equal(v, kv)))
        if i % 2:
            s = r.choice([1, 2, 3, 5, 7, 49, .5, .25, 1.5, 10])
            gx, gy = (r.randint(1, 4), r.randint(1, 3)) if s < 20 else (r.choice([1, 2]), 1)
            res, err = guard(lambda: iu.create_pixel_grid(gx, gy, *([s] if s != 1 else [])))
            case.ev("grid", err=err, nx=gx, ny=gy, s=num(s), osh=[] if err else [list(np.shape(x)) for x in res], xs=[] if err else nums(res[0]), ys=[] if err else nums(res[1]))
        nb = r.randint(1, 4)
        val = r.choice([r.randint(0, 255), [r.randint(0, 255) for _ in range(nb)]])
        ud = r.choice([None, "uint16", "float32", "uint8", "int32", "float64"])
        if ud in ("int32", "float64"):
            val = r.choice([16777217, 123456789, -5, [r.choice([16777219, -33554433, 2, 70001]) for _ in range(nb)]])
        kw = dict(nbands=nb, values=val)
        if ud:
            kw["dtype"] = np.dtype(ud)
        res, err = guard(iu.create_uniform_image_data, nx, ny, **kw)
        case.ev("uniform", err=err, nx=nx, ny=ny, nb=nb, v=[val] * nb if isinstance(val, int) else val, wantdt=ud or "uint8", dt="" if err else str(res.dtype),
                r=[] if err else nums(res), osh=[] if err else list(res.shape))
        fl, err = guard(iu.flatten_image_band, r.choice([img, np.asfortranarray(img), np.pad(img, 1)[1:-1, 1:-1]]))
        back, err2 = guard(lambda: iu.unflatten_image_band(fl, nx, ny))
        case.ev("flat", err=err or err2, nx=nx, ny=ny, v=nums(img), f=[] if err else nums(fl), fsh=[] if err else list(fl.shape), r=[] if err2 else nums(back), osh=[] if err2 else list(back.shape))
    ctx.judge("Colormap_Trace")
