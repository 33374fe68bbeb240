"""C36: many items asked about at once are answered like each item alone."""
import os

import numpy as np

import bulk
from vf import guard, num

ASSUMPTIONS = ["up to 140 000 items at once (fewer where an answer is slow)", "answers that depend on all items together are asked about copies: every item equally often",
               "inverse sensor models are compared by the pixel their ground point falls on, to a fortieth of a pixel"]
BLOCKS = [256, 1000, 1024, 4096, 10000, 32768, 65536]


def nums(a):
    return [num(float(v)) for v in np.ravel(a)]


def probes(n, b):
    full = n // b * b
    return sorted({i for i in (1, 2, b, b + 1, b + 2, full - b, full - b + 1, full, full + 1, n - 1, n) if 1 <= i <= n})


def shape(r, n):
    return r.choice([(n,), (n,), (1, n), (n, 1)] + [(2, n // 2)] * (n % 2 == 0) + [(n // 7, 7)] * 2 * (n % 7 == 0))


def many(case, r, k, n, b, small):
    if k.total:
        n = n // k.n * k.n
        idx = np.tile(np.arange(k.n), n // k.n)
        r.shuffle(idx)
    else:
        idx = np.array([r.randrange(k.n) for _ in range(n)])
    sh = shape(r, n)
    idx = idx.reshape(sh)
    got, err = guard(lambda: np.asarray(k.many(idx), dtype=float))
    if k.total:
        few, err2 = guard(lambda: np.asarray(k.many(np.arange(k.n)), dtype=float))
        case.ev("total", err=err or err2, got=[] if err else nums(got), few=[] if err2 else nums(few))
        return
    at, rows = probes(n, b), []
    osh = [] if err else list(got.shape[:-1])
    if not err and osh == list(sh):
        flat, items = got.reshape(n, -1), idx.ravel()
        want = small[items]
        if flat.shape == want.shape:            # where to look further: at most four more positions
            off = ~(np.isclose(flat, want, rtol=0, atol=1e-12, equal_nan=True).all(axis=1))
            worst = np.nan_to_num(np.abs(flat - want).max(axis=1), nan=1e300)
            at = sorted(set(at) | {int(i) + 1 for i in np.argsort(worst)[::-1][:2] if off[i]} | {int(i) + 1 for i in np.flatnonzero(off)[:2]})
        rows = [nums(flat[i - 1]) for i in at]
    case.ev("many", err=err, n=n, b=b, sh=list(sh), osh=osh, at=at, item=[int(idx.ravel()[i - 1]) + 1 for i in at], got=rows)


def run(ctx):
    r = ctx.rng
    behs = ctx.mc("Batches_MC", what="up to 24 items in blocks of 2 to 6: every way of going wrong in blocks shows at the probes, and one item after two whole blocks gives all away")
    best = [b for b in behs if len(b["f"]) == max(len(q["f"]) for q in behs)]
    for rep in range(ctx.n(3, 12)):
        for g in bulk.GROUPS:
            scratch = os.path.join(ctx.scratch, "%s%d" % (g.__name__, rep))
            os.makedirs(scratch)
            made, err = guard(g, r, scratch)
            if err:
                ctx.case(g.__name__).ev("alone", err=err, n=0, v=[])
                continue
            for k in made:
                case = ctx.case("%s %d" % (k.name, rep), tol=k.tol)
                small = None
                if not k.total:
                    small, err = guard(lambda: np.stack([np.asarray(k.many(np.array([i])), dtype=float)[0] for i in range(k.n)]))
                    case.ev("alone", err=err, n=k.n, v=[] if err else [nums(v) for v in small])
                    if err:
                        continue
                plan = [(r.choice(best), r.choice([b for b in BLOCKS if 2 * b + 1 <= k.limit]))] + [(r.choice(behs), r.choice(BLOCKS)) for _ in range(ctx.n(1, 4))]
                for b, size in plan:
                    rem = b["rem"] % b["b"]
                    n = b["k"] * size + (size - 1 if rem == b["b"] - 1 else rem if rem < 2 else r.randint(2, size - 2))
                    if n < 1 or n > k.limit:
                        size = r.choice([q for q in BLOCKS if 3 * q <= k.limit] or BLOCKS[:1])
                        n = min(2 * size + r.choice([0, 1, size - 1]), k.limit)
                    many(case, r, k, n, size, small)
                if k.limit > 32768 and (rep == 0 or ctx.n(0, 1)):     # as many as can be: numbers of positions beyond those of 16 bits
                    many(case, r, k, k.limit - r.randrange(9), 32768, small)
    ctx.judge("Batches_Trace")
