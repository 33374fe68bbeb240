"""C19: chips tile the image and hold the pixels at their reported positions."""
import os

import imageio
import numpy as np

from vf import enc, guard, num
from resippy.utils.image_utils import image_chipper as ic

ASSUMPTIONS = ["chips no larger than the image; overlap smaller than the chip", "positions are kept inside the image (the default)",
               "PNG encoding by imageio is lossless"]


def image(r, ny, nx, gray=None):
    gray = r.random() < .3 if gray is None else gray
    nb = 1 if gray else r.randint(1, 4)
    dt = r.choice(["uint8", "int16", "uint16", "int32", "float32", "float64"])
    hi = 255 if dt == "uint8" else 30000
    a = np.array([r.randint(0, hi) for _ in range(ny * nx * nb)]).astype(dt).reshape((ny, nx) if gray else (ny, nx, nb))
    if r.random() < .2:
        a = np.asfortranarray(a)
    return a


def new(ctx, tag, a):
    ny, nx = a.shape[:2]
    return ctx.case(tag, ny=ny, nx=nx, nb=1 if a.ndim == 2 else a.shape[2], gray=a.ndim == 2, dt=str(a.dtype),
                    img=[num(int(v)) for v in a.ravel().tolist()])


def bands_for(r, a):
    nb = 1 if a.ndim == 2 else a.shape[2]
    k = r.randrange(4)
    if k < 2:
        return None, list(range(nb))
    if k == 2 or nb == 1:
        b = r.randrange(nb)
        return b, [b]
    b = r.sample(range(nb), r.randint(1, nb))
    if r.random() < .2:
        b.append(r.choice(b))
    return b, b


def record(case, op, a, keep, res, err, cny, cnx, bands, **k):
    ul, rr, osh, odt = [], [], [], ""
    if not err:
        try:
            chips, uls = res
            ul = [[int(y), int(x)] for y, x in uls]
            rr, osh, odt = [num(v) for v in np.ravel(chips).tolist()], list(chips.shape), str(chips.dtype)
            rr = [int(v) if isinstance(v, (int, float)) else v for v in rr]
        except Exception:
            err = "unreadable-result"
    case.ev(op, err=err, r=rr, osh=osh, odt=odt, ul=ul, cny=cny, cnx=cnx, bands=bands, same=bool(np.array_equal(a, keep)), **k)
    return None if err else res


def grid(ctx, tag, a, cny, cnx, vy, vx):
    r = ctx.rng
    case = new(ctx, tag, a)
    arg, bands = bands_for(r, a)
    keep = a.copy()
    kw = {} if arg is None else {"bands": arg}
    if vy or r.random() < .5:
        kw["npix_overlap_y"] = vy
    if vx or r.random() < .5:
        kw["npix_overlap_x"] = vx
    res, err = guard(ic.chip_entire_image_to_memory, a, cny, cnx, **kw)
    record(case, "grid", a, keep, res, err, cny, cnx, bands, vy=vy, vx=vx)


def usual(ctx, i):
    """Chips of the size they have when none is asked for: only where they lie and how large they are."""
    r = ctx.rng
    ny, nx = r.randint(256, 700), r.randint(256, 700)
    if i % 4 == 0:
        ny = 256
    a = np.zeros((ny, nx) + ((2,) if r.random() < .3 else ()), dtype="uint8")
    case = ctx.case("usual-%d" % i, ny=ny, nx=nx)
    kw, v = {}, [0, 0]
    if r.random() < .5:
        v = [r.choice([0, 10, 128, 200]), r.choice([0, 10, 128, 200])]
        kw = dict(npix_overlap_y=v[0], npix_overlap_x=v[1])
    size = [256, 256]
    if r.random() < .3:
        k = r.choice(["y", "x"])
        size["yx".index(k)] = kw["chip_n%s_pixels" % k] = r.choice([201, 250, 256])
    how = r.choice(["grid", "pos", "center"])
    want = []
    if how == "grid":
        res, err = guard(ic.chip_entire_image_to_memory, a, **kw)
    else:
        kw = {k: x for k, x in kw.items() if k.startswith("chip")}
        want = [[r.randint(-300, ny + 10), r.randint(-300, nx + 10)] for _ in range(r.randint(1, 3))]
        fn = ic.chip_images_by_pixel_upper_lefts if how == "pos" else ic.chip_images_by_pixel_centers
        res, err = guard(fn, a, [w[0] for w in want], [w[1] for w in want], **kw)
    ul, osh = [], []
    if not err:
        try:
            osh, ul = list(res[0].shape), [[int(y), int(x)] for y, x in res[1]]
        except Exception:
            err = "unreadable-result"
    case.ev("usual", err=err, how=how, want=want, v=v, cny=size[0], cnx=size[1], osh=osh, ul=ul, rest=list(a.shape[2:]))


def seq(r, v):
    return r.choice([list, np.array])(v)


def positions(ctx, i):
    r = ctx.rng
    a = image(r, r.randint(3, 12), r.randint(3, 12))
    ny, nx = a.shape[:2]
    cny, cnx = r.randint(1, ny), r.randint(1, nx)
    arg, bands = bands_for(r, a)
    kw = {} if arg is None else {"bands": arg}
    n = r.randint(1, 8)
    keep = a.copy()
    case = new(ctx, "pos-%d" % i, a)
    inside = r.random() < .2
    if inside:
        want = [[r.randint(0, ny - cny), r.randint(0, nx - cnx)] for _ in range(n)]
    else:
        want = [[r.randint(-4, ny + 3), r.randint(-4, nx + 3)] for _ in range(n)]
    ys, xs = seq(r, [w[0] for w in want]), seq(r, [w[1] for w in want])
    if inside and r.random() < .5:
        kw["keep_within_image_bounds"] = False
    res, err = guard(ic.chip_images_by_pixel_upper_lefts, a, ys, xs, cny, cnx, **kw)
    record(case, "pos", a, keep, res, err, cny, cnx, bands, want=want)
    kw.pop("keep_within_image_bounds", None)
    want = [[r.uniform(-2, ny + 2), r.uniform(-2, nx + 2)] if r.random() < .3 else [r.randint(-2, ny + 1), r.randint(-2, nx + 1)] for _ in range(n)]
    if r.random() < .5:
        want = [[int(p), int(q)] for p, q in want]
    res, err = guard(ic.chip_images_by_pixel_centers, a, seq(r, [w[0] for w in want]), seq(r, [w[1] for w in want]), cny, cnx, **kw)
    record(case, "center", a, keep, res, err, cny, cnx, bands, want=enc(want))


def disk(ctx, i):
    """Chips written to disk, one file each, read back unchanged."""
    r = ctx.rng
    k = r.choice([0, 1, 3, 4])
    shape = (r.randint(1, 12) if i % 30 != 4 else r.randint(120, 300), r.randint(2, 6), r.randint(2, 6)) + ((k,) if k > 1 else ())
    if shape[0] > 99:
        shape = (shape[0], 2, 1 if k <= 1 else 2) + shape[3:]
    chips = np.array([r.randint(0, 255) for _ in range(int(np.prod(shape)))], dtype="uint8").reshape(shape)
    d = os.path.join(ctx.scratch, "chips%d" % i)
    os.makedirs(d)
    case = ctx.case("disk-%d" % i)
    kw, base = {}, os.path.basename(d)
    if r.random() < .5:
        kw["base_chip_fname"] = base = "c"
    names = ["%s_%08d" % (base, j) for j in range(shape[0])]
    if r.random() < .4:
        names = ["%s%d" % (r.choice(["f", "site.4_", "a b", "v1.png."]), j) for j in r.sample(range(1000), shape[0])]
        kw["fnames_list"] = names
    fmt = r.choice(["png", ".png", "tif"])
    if fmt != "png" or r.random() < .5:
        kw["output_format"] = fmt
    want = chips
    if r.random() < .3:
        kw["output_chip_ny"], kw["output_chip_nx"] = r.randint(1, 9), r.randint(1, 9)
        if k == 4:
            chips[..., 3] = 255
        want = chips.mean(axis=(1, 2), keepdims=True).round().astype("uint8")     # chips of one colour keep it in every size
        want = np.broadcast_to(want, shape[:1] + (kw["output_chip_ny"], kw["output_chip_nx"]) + shape[3:])
        chips[...] = chips.mean(axis=(1, 2), keepdims=True).round()
    if r.random() < .4:
        kw["remove_alpha"] = False
    elif k == 4:
        want = want[..., :3]
    _, err = guard(ic.write_chips_to_disk, chips.copy(), d, **kw)
    wn = ["%s.%s" % (n, fmt.replace(".", "")) for n in names]
    got, gn = [], sorted(os.listdir(d))
    if not err:
        got, err = guard(lambda: np.stack([np.asarray(imageio.imread(os.path.join(d, n))) for n in wn]) if gn == sorted(wn) else np.zeros(0))
    case.ev("disk", err=err, names=gn, wnames=sorted(wn), r=[] if err else [num(v) for v in np.ravel(got).tolist()], w=[num(v) for v in want.ravel().tolist()],
            osh=[] if err else list(got.shape), wsh=list(want.shape))


def run(ctx):
    r = ctx.rng
    behs = ctx.mc("Chips_MC", what="grid along one axis, every length to 9, chip length and overlap: inside, no gaps, whole cover, overlaps")
    r.shuffle(behs)
    for i, b in enumerate(behs):        # every behaviour once along each axis
        q = behs[-1 - i]
        a = image(r, b["n"], q["n"])
        grid(ctx, "spec-%d" % i, a, b["c"], q["c"], b["v"], q["v"])
    for i in range(ctx.n(150, 3000)):
        a = image(r, r.randint(1, 18), r.randint(1, 18))
        cny, cnx = r.randint(1, a.shape[0]), r.randint(1, a.shape[1])
        grid(ctx, "grid-%d" % i, a, cny, cnx, r.randrange(cny), r.randrange(cnx))
    for i in range(ctx.n(8, 100)):       # many chips
        n, m = r.randint(60, 140), r.randint(1, 3)
        a = image(r, n, m, True) if r.random() < .5 else image(r, m, n, True)
        c = r.randint(1, 2)
        cny, cnx = min(c, a.shape[0]), min(c, a.shape[1])
        grid(ctx, "long-%d" % i, a, cny, cnx, r.randrange(cny), r.randrange(cnx))
    for i in range(ctx.n(250, 4000)):
        positions(ctx, i)
    for i in range(ctx.n(30, 200)):
        usual(ctx, i)
    for i in range(ctx.n(90, 500)):
        disk(ctx, i)
    ctx.judge("Chips_Trace")
