"""Spectral cubes with their description for the specification (Stats.tla)."""
import numpy as np

from vf import enc, guard, num
from resippy.spectral import spectral_image_processing_1d as s1
from resippy.spectral import spectral_image_processing_2d as s2
from resippy.utils import spectral_utils as su


class Cube:
    """x: (ny, nx, nb) array; mask: (ny, nx) array or None; keep: flat list of the unmasked pixels."""

    def __init__(self, x, mask):
        self.x, self.mask = x, mask
        self.ny, self.nx, self.nb = x.shape
        n = self.ny * self.nx
        self.keep = [True] * n if mask is None else [not bool(v) for v in np.ravel(mask)]
        self.flat = np.ascontiguousarray(x).reshape(n, self.nb)
        kept = self.flat[np.array(self.keep)]
        self.kept = kept
        with np.errstate(all="ignore"):
            self.scale = float(max(1., np.max(np.abs(kept.astype(float))))) if len(kept) else 1.
        self.finite = bool(np.all(np.isfinite(self.flat.astype(float)))) and float(np.max(np.abs(self.flat.astype(float)))) < 1e6
        self.regular = self.nb > 1 and len(kept) > self.nb + 1 and np.linalg.cond(np.cov(kept.astype(float).T)) < 1e5
        self.regular_all = self.regular and self.finite and np.linalg.cond(np.cov(self.flat.astype(float).T)) < 1e5

    def case(self, ctx, tag):
        return ctx.case(tag, P=[[num(v) for v in row] for row in self.flat.tolist()], keep=self.keep, scale=num(self.scale),
                        cov=bool(self.regular), finite=bool(self.finite and (self.regular_all or not self.regular)))


DTYPES = ["uint8", "int16", "uint16", "int32", "float32", "float64", "float64"]


def values(r, n, dt):
    if dt == "uint8":
        return [r.randint(0, 255) for _ in range(n)]
    if dt in ("int16", "int32"):
        return [r.randint(-300, 300) for _ in range(n)]
    if dt == "uint16":
        return [r.randint(0, 4000) for _ in range(n)]
    s = r.choice([1, 64, 1024])
    return [r.randint(-4096, 4096) / s for _ in range(n)]


def cube(r, nb=None, npx=None, mask=True, dt=None):
    nb = nb or r.randint(2, 4)
    ny, nx = npx or (r.randint(1, 4), r.randint(2, 5))
    while ny * nx < nb + 3:
        nx += 1
    dt = dt or r.choice(DTYPES)
    x = np.array(values(r, ny * nx * nb, dt)).astype(dt).reshape(ny, nx, nb)
    m = None
    if mask and r.random() < .7:
        n = ny * nx
        k = r.randint(0, max(0, n - nb - 2))
        q = np.zeros(n)
        q[r.sample(range(n), k)] = 1
        if r.random() < .5:                                     # nonzero means masked, whatever the value
            q *= r.choice([1, 2, 7, 255])
        m = q.reshape(ny, nx).astype(r.choice([bool, "uint8", int, float]))
        if x.dtype.kind == "f" and k and r.random() < .4:       # whatever hides under the mask
            j = r.choice(np.flatnonzero(q).tolist())
            x.reshape(-1, nb)[j] = r.choice([np.nan, 1e30, -1e9, np.inf])
    if r.random() < .15:
        x = np.asfortranarray(x)
    return Cube(x, m)


def tol_of(x):
    return 2e-4 if x.dtype == np.float32 else 1e-8


def result(case, op, res, err, sh, same=True, undefined_masked=False, **k):
    r, osh = [], []
    if not err and undefined_masked and np.ma.isMaskedArray(res):     # 0/0 and the like: masked says as much as not-a-number
        res = np.ma.filled(res.astype(float), np.nan)
    if not err:
        try:
            r, osh = [num(float(v)) for v in np.ravel(np.ma.getdata(res))], list(np.shape(res))
            if np.any(np.ma.getmaskarray(res)):
                err = "masked-result"
        except Exception:
            err = "unreadable-result"
    case.ev(op, err=err, r=r, osh=osh, sh=list(sh), same=bool(same), **k)
    return None if err else np.ma.getdata(res)


class Watch:
    """Remembers arrays and tells whether they still hold the same values."""

    def __init__(self, *arrays):
        self.pairs = [(a, np.array(a, copy=True)) for a in arrays if isinstance(a, np.ndarray)]

    def same(self):
        return all(np.array_equal(a, b) or (a.dtype.kind == "f" and np.array_equal(a, b, equal_nan=True)) for a, b in self.pairs)
