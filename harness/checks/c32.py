"""C32: measurements read off images: windows, agreement, marked places, resampling, sizes."""
import json
import os

import numpy as np
from fractions import Fraction

import orthos as O
import sensors as S
import splines
from checks.c17 import Fixed
from vf import enc, guard, num
from resippy.photogrammetry import ortho_tools
from resippy.utils import spectral_utils
from resippy.utils.image_utils import image_mask_utils, image_utils
from resippy.utils.image_utils.image_registration import MMI

ASSUMPTIONS = ["points within a hundred-thousandth of a pixel of a half pixel may count to either", "pictures compared are not constant and have no value within rounding of a bin's border",
               "edge pixels left open; splines of order 2 to 5 on pictures flat but for a few samples", "opaque bands of samples that can hold 255"]


def plane(a):
    return {"nx": a.shape[1], "ny": a.shape[0], "v": [num(v) for v in a.ravel().tolist()]}


def windows(r, case, sc, im, pts, w, nd, explicit=True):
    im.get_metadata().set_nodata_val(nd)
    q = np.array(pts, dtype=float)
    kw = {"window": w} if explicit else {}
    res, err = guard(ortho_tools.get_pixel_values, im, q[:, 0].copy(), q[:, 1].copy(), q[:, 2].copy(), **kw)
    case.ev("windows", err=err, p=enc(pts), w=w, nodata=num(nd) if nd is not None else "None", r=[[num(float(v)) for v in row] for row in res] if not err else [])


def ground(sc, r, n):
    out = []
    for _ in range(n):
        k = r.randrange(4)
        f = 1.25 if k else 2.5
        x, y = r.uniform(-f, f), r.uniform(-f, f)
        if k == 1:              # along an edge
            x = r.choice([-1, 1]) * r.uniform(.8, 1.15)
        if k == 2:
            y = r.choice([-1, 1]) * r.uniform(.8, 1.15)
        z = 0. if sc.degrees() else r.choice([0., r.uniform(-2, 3) * sc.gsd])
        out.append([sc.cx + x * sc.w, sc.cy + y * sc.w, z])
    return out


def picture(r, ny, nx, m, how):
    """Values whose bins among m are beyond doubt."""
    n = ny * nx
    while True:
        if how == "int":            # a span which m divides
            step = r.randint(1, 4)
            lo = r.randint(-20, 40)
            v = [lo, lo + m * step] + [lo + r.randint(0, m * step) for _ in range(n - 2)]
            dt = r.choice(["int16", "int32", "float64"])
        elif how == "few":
            lo = r.randint(0, 9)
            v = [lo, lo + m] + [lo + m * r.choice([0, 1]) for _ in range(n - 2)]
            dt = r.choice(["uint8", "uint16", "float32"]) if lo + m < 250 else "uint16"
        else:
            lo, h = r.uniform(-50, 50), r.uniform(.01, 30)
            v = [lo, lo + m * h] + [lo + h * (r.randrange(m) + r.uniform(.1, .9)) for _ in range(n - 2)]
            dt = "float64"
        r.shuffle(v)
        a = np.array(v).astype(dt)
        if a.min() != a.max():
            return a.reshape(ny, nx)


def agree(r, case):
    ny, nx = r.randint(2, 7), r.randint(2, 7)
    given = r.random() < .8
    m = r.choice([1, 2, 3, 5, 8, 16]) if given else 100
    a = picture(r, ny, nx, m, r.choice(["int", "few", "real"]))
    b = picture(r, ny, nx, m, r.choice(["int", "few", "real"]))
    k = r.randrange(4)
    if k == 0:
        b = a.copy()
    elif k == 1:                # mostly the other's values, in other units
        f = r.choice([2, 4])
        b = a.astype("float64") * f
        j = r.randrange(ny * nx)
        b.ravel()[j] = b.ravel()[(j + 1) % (ny * nx)]
        if b.min() != a.min() * f or b.max() != a.max() * f:
            b = a.astype("float64") * f
    kw = {"nbins": m} if given else {}
    res, err = guard(lambda: float(MMI.image_mmi(a.copy(), b.copy(), **kw)))
    case.ev("agree", err=err, m=m, a=plane(a)["v"], b=plane(b)["v"], r=num(res) if not err else "nan")


def mask(r, case):
    ny, nx, nb = r.randint(1, 7), r.randint(1, 7), r.choice([3, 3, 4])
    pal = [[r.choice([0, 255, r.randint(0, 255)]) for _ in range(3)] for _ in range(r.randint(1, 4))]
    pal += [[pal[0][1], pal[0][2], pal[0][0]], [0, 0, 0], [0, 0, 1]]          # the same numbers in other channels
    a = np.array([[r.choice(pal) + [r.choice([0, 255, 9])] for _ in range(nx)] for _ in range(ny)], dtype=r.choice(["uint8", "uint8", "int32"]))[:, :, :nb]
    a = np.ascontiguousarray(a)
    ask = r.sample(pal, r.randint(1, len(pal)))
    ask = [list(t) for t in {tuple(c) for c in ask}]
    r.shuffle(ask)
    up = r.random() < .5
    d = {("#%02X%02X%02X" if up else "#%02x%02x%02x") % tuple(c): "thing %d" % k for k, c in enumerate(ask)}
    f = lambda p: [[int(v) for v in p[0]], [int(v) for v in p[1]]]
    res, err = guard(image_mask_utils.rgb_image_point_mask_to_pixel_locations, a.copy(), d)
    k = dict(nx=nx, nb=nb, v=[int(v) for v in a.ravel()])
    if not err and sorted(res) != sorted(d.values()):
        err = "wrong-names"
    case.ev("places", err=err, colours=ask, got=[f(res["thing %d" % i]) for i in range(len(ask))] if not err else [], **k)
    res, err = guard(image_mask_utils.rgb_image_point_mask_to_pixel_locations, a.copy())
    case.ev("marked", err=err, got=f(res) if not err else [[], []], **k)


def warp(r, case):
    ny, nx = r.randint(2, 7), r.randint(2, 7)
    dt = r.choice(O.DTYPES)
    a = O.pixels_of(r, ny, nx, 1, dt)[:, :, 0]
    sh = r.choice([(1, 1), (2, 3), (4, 1), (5, 5)])
    q = [[round(r.uniform(-2, nx + 1), 3), round(r.uniform(-2, ny + 1), 3)] if r.random() < .3 else [round(r.uniform(0, nx - 1), 3), round(r.uniform(0, ny - 1), 3)]
         for _ in range(sh[0] * sh[1])]
    order = r.choice([0, 1])
    nd = r.choice([0, -9999, 500]) if r.random() < .7 else None
    if dt[0] == "u" and nd is not None:           # a value the samples can hold
        nd = r.choice([0, 255])
    kw = {} if nd is None else {"nodata_val": nd}
    if order or r.random() < .5:
        kw["interpolation"] = ["nearest", "bilinear"][order]
    p = np.array(q)
    src = a.astype("float64") if r.random() < .5 else a
    res, err = guard(image_utils.grid_warp_image_band, src.copy(), p[:, 0].reshape(sh).copy(), p[:, 1].reshape(sh).copy(), **kw)
    ok = not err
    case.ev("warp", err=err, src=plane(a), q=enc(q), order=order, nodata=nd or 0, sh=list(sh), osh=list(res.shape) if ok else [], v=[num(float(v)) for v in res.ravel()] if ok else [])


def resize(r, case):
    dt = r.choice(["uint8", "uint8", "float32", "int32"])
    nb = 3 if dt == "uint8" and r.random() < .4 else 1
    ny, nx = r.randint(1, 9), r.randint(1, 9)
    a = O.pixels_of(r, ny, nx, nb, "int16" if dt == "int32" else dt).astype(dt)
    if r.random() < .4:
        a[:] = r.choice([0, 7, 200])
    if nb == 1:
        a = a[:, :, 0]
    my, mx = (ny, nx) if r.random() < .3 else (r.randint(1, 14), r.randint(1, 14))
    res, err = guard(image_utils.resize_image, a.copy(), my, mx)
    ok = not err
    case.ev("resize", err=err, src={"nx": nx, "ny": ny, "v": [num(v) for v in a.ravel().tolist()]}, ny=my, nx=mx, rest=[3] if nb == 3 else [], dt=dt,
            osh=list(res.shape) if ok else [], odt=str(res.dtype) if ok else "", v=[num(v) for v in res.ravel().tolist()] if ok else [])


def opaque(r, case):
    ny, nx, nb = r.randint(1, 6), r.randint(1, 6), r.randint(1, 4)
    dt = r.choice(O.DTYPES)
    a = O.pixels_of(r, ny, nx, nb, dt)
    nd = r.choice([0, num(a[0, 0, 0].item()), num(a[-1, -1, -1].item())])
    nd = float(Fraction(nd)) if dt[0] == "f" else int(nd)
    for _ in range(r.randint(0, 5)):
        a[r.randrange(ny), r.randrange(nx), r.randrange(nb)] = nd
    b = a.copy()
    kw = {"nodata_val": nd} if nd or r.random() < .5 else {}
    res, err = guard(ortho_tools.mask_image, b, **kw)
    ok = not err
    pl = lambda x: [[num(v) for v in x[:, :, k].ravel().tolist()] for k in range(x.shape[2])]
    if ok and not np.array_equal(a, b):
        err, ok = "source-changed", False
    case.ev("opaque", err=err, nx=nx, ny=ny, nb=nb, dt=dt, nodata=num(nd), src=pl(a), v=pl(res) if ok else [], osh=list(res.shape) if ok else [], odt=str(res.dtype) if ok else "")


def dims(r, case):
    sh = [r.randint(1, 6) for _ in range(r.choice([2, 3]))]
    a = np.zeros(sh)

    def look():
        return dict(grey=bool(image_utils.is_grayscale(a)), r=[int(v) for v in image_utils.get_image_ny_nx_nbands(a)],
                    cube=[int(v) for v in spectral_utils.get_2d_cube_nx_ny_nbands(a)] if len(sh) == 3 else [],
                    is2=bool(spectral_utils.is_2d_cube(a)), is1=bool(spectral_utils.is_1d_cube(a)))
    f, err = guard(look)
    case.ev("dims", err=err, sh=sh, **(f if not err else dict(grey=False, r=[], cube=[], is2=False, is1=False)))


def small(ctx, r, i, v):
    """The specification's 3x2 picture under a north-up georeference: windows around every pixel and beyond."""
    sc = Fixed(ctx, r, [4e5, 2., 0., 4.2e6, 0., -2.], 3, 2)
    sc.nb, sc.dt = 1, r.choice(["uint8", "int16", "float32"])
    sc.a = np.array(v).reshape(2, 3, 1).astype(sc.dt)
    case = ctx.case("spec-%d" % i, cams=sc.descs(), src=sc.src())
    im = sc.image("disk")
    pts = [[4e5 + 2 * x + r.uniform(-.9, .9), 4.2e6 - 2 * y + r.uniform(-.9, .9), 0.] for x in range(-3, 6) for y in range(-3, 5)]
    for w in (1, 2, 3, 4):
        windows(r, case, sc, im, r.sample(pts, 30), w, 9)


def run(ctx):
    r = ctx.rng
    behs = ctx.mc("Measure_MC", "Measure_MC_Deep" if ctx.thorough else "Measure_MC",
                  what="every 3x2 picture three pixels away from a flat one, windows of 1 to 4 pixels around and beyond it; two 2x2 pictures: symmetry, self-agreement, order and stretch")
    for i, v in enumerate(r.sample(behs, ctx.n(30, 400))):
        small(ctx, r, i, v)
    for i in range(ctx.n(60, 900)):
        sc = O.Scene(ctx, r)
        if sc.err:
            continue
        case = ctx.case("windows-%d" % i, cams=sc.descs(), src=sc.src())
        im = sc.image(r.choice(["disk", "loaded"]))
        for _ in range(2):
            w = r.choice([1, 2, 3, 4, 5, 8, 8, 30])
            nd = r.choice([None, 0, r.choice(sc.a.ravel().tolist())])
            windows(r, case, sc, im, ground(sc, r, 12), w, nd, w != 8 or r.random() < .5)
    for i in range(ctx.n(150, 2500)):
        case = ctx.case("picture-%d" % i, cams=[], src=[])
        for f in (agree, mask, warp, resize, opaque, dims):
            f(r, case)
    ctx.judge("Measure_Trace")
    ctx.mc("Spline_MC", what="cardinal splines of order 2 to 5 walked past in eighths: through the samples, shares are whole, planes stay planes, fading out")
    for i in range(ctx.n(40, 800)):
        splines.warp(ctx, r, i)
    ctx.judge("Spline_Trace")
