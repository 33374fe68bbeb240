"""C23: masked statistics use exactly the unmasked pixels; flattening keeps spectra together."""
import numpy as np

import spectra as X
from spectra import s1, s2, su
from vf import enc, num

ASSUMPTIONS = ["a mask is nonzero at the pixels to leave out", "at least one pixel (two for a covariance) is unmasked"]


def one(ctx, tag, c):
    r = ctx.rng
    case = c.case(ctx, tag)
    two = r.random() < .5
    tol = X.tol_of(c.x)
    sp = s2 if two else s1
    x = c.x if two else c.flat
    args = [x]
    if c.mask is not None:
        args.append(c.mask if two else np.ravel(c.mask))
    w = X.Watch(*args)
    res, err = X.guard(sp.compute_image_cube_spectral_mean, *args)
    X.result(case, "mean", res, err, (c.nb,), w.same(), tol=num(tol))
    if c.regular:
        res, err = X.guard(sp.compute_image_cube_spectral_covariance, *args)
        X.result(case, "cov", res, err, (c.nb, c.nb), w.same(), tol=num(tol))
    res, err = X.guard(sp.demean_image_data, *args)
    X.result(case, "demean", res, err, x.shape, w.same(), tol=num(tol))
    if c.finite:
        flatten(case, c)


def flatten(case, c):
    w = X.Watch(c.x)
    f, err = X.guard(su.flatten_image_cube, c.x)
    f = X.result(case, "flat", f, err, (c.ny * c.nx, c.nb), w.same())
    if f is not None:
        u, err = X.guard(su.unflatten_image_cube, f, c.nx, c.ny)
        X.result(case, "flat", u, err, (c.ny, c.nx, c.nb), w.same())


def run(ctx):
    r = ctx.rng
    behs = ctx.mc("Stats_MC", what="every 3-pixel 2-band cube over 3 values with every mask: statistics do not move with masked pixels; identities of the statistics")
    for i, b in enumerate(behs if ctx.thorough else r.sample(behs, 250)):
        dt = r.choice(X.DTYPES)
        x = np.array(b["p"]).reshape((3, 1, 2) if r.random() < .5 else (1, 3, 2)).astype(dt)
        c = X.Cube(x, np.array([0 if k else 1 for k in b["keep"]]).reshape(x.shape[:2]).astype(r.choice([bool, int, float, "uint8"])))
        # two pixels suffice for a covariance, if not for its inverse
        one(ctx, "spec-%d" % i, c)
    for i in range(ctx.n(300, 5000)):
        one(ctx, "cube-%d" % i, X.cube(r, nb=r.choice([1, 2, 3, 4])))
    for i in range(ctx.n(12, 100)):     # flattening of many bands and pixels
        sh = r.sample([r.randint(1, 3), r.choice([9, 24, 60]), r.choice([2, 20])], 3)
        x = np.array([r.randint(-99, 99) for _ in range(int(np.prod(sh)))]).reshape(sh).astype(r.choice(X.DTYPES))
        c = X.Cube(x, None)
        c.regular = c.regular_all = False
        flatten(c.case(ctx, "wide-%d" % i), c)
    ctx.judge("Stats_Trace")
