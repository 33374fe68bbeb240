"""C24: detectors compute their defining statistics at every pixel."""
import numpy as np

import spectra as X
from spectra import s1, s2
from vf import enc, num

ASSUMPTIONS = ["at least two bands and a well-conditioned covariance", "RX takes no mask"]


def target(r, c):
    k = r.randrange(4)
    if k == 0:
        i = r.randrange(len(c.kept))
        return np.array(c.kept[i])
    t = np.array(X.values(r, c.nb, str(c.x.dtype))).astype(c.x.dtype)
    return t if k < 3 else t.astype(float)


def given(r, c):
    """A mean and an inverse covariance supplied by the caller (short numbers)."""
    m = np.array(X.values(r, c.nb, str(c.x.dtype))).astype(r.choice([str(c.x.dtype), "float64"]))
    a = np.array([[r.randint(-8, 8) / 4. for _ in range(c.nb)] for _ in range(c.nb)])
    return m, a @ a.T + np.eye(c.nb)


def detect(ctx, tag, c):
    r = ctx.rng
    case = c.case(ctx, tag)
    two = r.random() < .5
    sp, x = (s2, c.x) if two else (s1, c.flat)
    sh = x.shape[:-1]
    tol = X.tol_of(c.x) * 100

    def call(op, name, args, kw, m=None, iv=None, t=None, **k):
        w = X.Watch(*(list(args) + list(kw.values())))
        res, err = X.guard(getattr(sp, name), *args, **kw)
        # a position where the statistic is 0/0 comes out as not-a-number
        res = X.result(case, op, res, err, sh, w.same(), True, tol=num(tol), m=enc(m) if m is not None else [], iv=enc(iv) if iv is not None else [],
                       t=enc(t) if t is not None else [], **k)
        # the image form equals the flattened form
        if res is not None and two and r.random() < .5:
            fa = [a.reshape(-1, c.nb) if isinstance(a, np.ndarray) and a.ndim == 3 else a for a in args]
            fk = {q: np.ravel(v) if q == "image_mask" else v for q, v in kw.items()}
            f, e2 = X.guard(getattr(s1, name), *fa, **fk)
            if not e2 and np.all(np.isfinite(np.ma.filled(np.ma.asarray(f).astype(float), np.nan))):
                X.result(case, "same", f, e2, (c.ny * c.nx,), tol="1/1000000000", w=[num(float(v)) for v in np.ravel(res)], scale=num(float(np.max(np.abs(np.ravel(res))))))

    mu, iv = given(r, c)
    if c.finite and c.regular_all:
        k = r.randrange(4)
        kw = {}
        if k & 1:
            kw["spectral_mean"] = mu
        if k & 2:
            kw["inverse_covariance"] = iv
        call("rx", "rx_anomaly_detector", [x], kw, kw.get("spectral_mean"), kw.get("inverse_covariance"))
    if c.regular:
        t = target(r, c)
        k = r.randrange(4)
        kw = {}
        if k & 1:
            kw["spectral_mean"] = mu
        if k & 2:
            kw["inverse_covariance"] = iv
        if c.mask is not None:
            kw["image_mask"] = c.mask if two else np.ravel(c.mask)
        call("ace", "ace", [x, t], kw, kw.get("spectral_mean"), kw.get("inverse_covariance"), t, definite=True)
    if c.finite:
        t = target(r, c)
        call("ace_demeaned", "ace_demeaned", [x, t, iv], {}, iv=iv, t=t)
        t = target(r, c)
        if np.any(t):
            call("sam", "sam", [x, t], {}, t=t)
            if x.dtype == np.float64:       # any positive scaling
                a, e1 = X.guard(sp.sam, x, t)
                b, e2 = X.guard(sp.sam, x * np.array([[r.choice([.5, 3., 1e-3, 100.])] for _ in range(x.size // c.nb)]).reshape(x.shape[:-1] + (1,)), t * r.uniform(.1, 9))
                if not (e1 or e2) and np.all(np.isfinite(a)):
                    X.result(case, "same", b, e2, sh, tol="1/100000000", w=[num(float(v)) for v in np.ravel(a)], scale=1)


def root(c):
    v, q = np.linalg.eigh(c)
    return (q * np.sqrt(v)) @ q.T


def equalize(ctx, tag, c, d):
    r = ctx.rng
    case = c.case(ctx, tag)
    two = r.random() < .5
    sp = s2 if two else s1
    arr = lambda z: z.x if two else z.flat
    args = [arr(c), arr(d)]
    if c.mask is not None or d.mask is not None:
        for z in (c, d):
            args.append(None if z.mask is None else (z.mask if two else np.ravel(z.mask)))
    w = X.Watch(*args)
    L, err = X.guard(sp.compute_cov_eq_linear_transform_matrix, *args)
    scale = float(np.sqrt(max(np.trace(np.cov(z.kept.astype(float).T)) for z in (c, d)) + 1))
    a1, a2 = (root(np.cov(z.kept.astype(float).T)) for z in (c, d))
    L = X.result(case, "transform", L, err, (c.nb, c.nb), w.same(), tol="1/1000000", a1=enc(a1), a2=enc(a2), scale=num(scale),
                 P2=[[num(v) for v in row] for row in d.flat.tolist()], keep2=d.keep)
    if L is None:
        return
    if c.mask is None and d.mask is None or r.random() < 2:
        res, err = X.guard(sp.covariance_equalization_mean_centered, *args)
        X.result(case, "equalized", res, err, arr(c).shape, w.same(), tol="1/1000000", L=enc(np.asarray(L)), scale=num(c.scale * max(1., float(np.abs(L).max()))))


def pca(ctx, tag, c):
    r = ctx.rng
    case = c.case(ctx, tag)
    kw = {}
    k = c.nb
    if r.random() < .5:
        kw["n_components"] = k = r.randint(1, c.nb)
    if r.random() < .3:
        kw["whiten"] = True
    w = X.Watch(c.x)
    res, err = X.guard(s2.compute_image_cube_pca, c.x, **kw)
    S = np.cov(c.flat.astype(float).T)
    X.result(case, "pca", res, err, (c.ny, c.nx, k), w.same(), tol="1/100000000" if c.x.dtype != np.float32 else "1/10000",
             whiten=bool(kw.get("whiten")), k=k, detscale=num(float(np.trace(S)) ** c.nb))


def regular(r, **k):
    while True:
        c = X.cube(r, **k)
        if c.regular:
            return c


def run(ctx):
    r = ctx.rng
    ctx.mc("Stats_MC", what="RX total, ACE bounds and its value at the target, scale invariance of the spectral angle on every small cube")
    for i in range(ctx.n(280, 4000)):
        detect(ctx, "detect-%d" % i, regular(r))
    for i in range(ctx.n(90, 1500)):
        c = regular(r, nb=r.randint(2, 3))
        equalize(ctx, "equalize-%d" % i, c, regular(r, nb=c.nb))
    for i in range(ctx.n(80, 1500)):
        c = regular(r, nb=r.randint(2, 4), mask=False)
        if c.x.dtype != np.float32:
            pca(ctx, "pca-%d" % i, c)
    ctx.judge("Stats_Trace")
