"""C20: the detection mosaic shows the highest score covering each pixel."""
import numpy as np

from vf import enc, guard, num
from resippy.utils.image_utils import image_chipper as ic
from resippy.utils.image_utils import image_utils as iu

ASSUMPTIONS = ["finite scores"]


def mosaic(ctx, tag, uls, ss, cy, cx, form):
    case = ctx.case(tag)
    u, s = np.array(uls), form(ss)
    keep = u.copy(), np.array(ss)
    res, err = guard(iu.create_detection_image_from_scores, s, u, cx, cy)
    rr, osh = [], []
    if not err:
        try:
            rr, osh = [num(float(v)) for v in np.ravel(res)], list(res.shape)
        except Exception:
            err = "unreadable-result"
    if not err and not (np.array_equal(u, keep[0]) and np.array_equal(np.asarray(s), keep[1])):
        err = "inputs-changed"
    case.ev("mosaic", err=err, uls=[[int(y), int(x)] for y, x in uls], ss=enc([float(v) for v in ss]), cy=cy, cx=cx, r=rr, osh=osh)


def run(ctx):
    r = ctx.rng
    behs = ctx.mc("Mosaic_MC", what="painting 3 chips in ascending order, every position, score and tie order: each place shows the highest score over it")
    pick = behs if ctx.thorough else r.sample(behs, 400)
    for i, b in enumerate(pick):
        k = r.choice([1, 2, 3])         # places scaled up with the chips
        mosaic(ctx, "spec-%d" % i, [[k * y for y in u] for u in b["uls"]], b["ss"], k, 2 * k, np.array)
    for i in range(ctx.n(400, 6000)):
        n = r.randint(1, 14)
        cy, cx = r.randint(1, 7), r.randint(1, 7)
        if r.random() < .3:             # positions as the chipper reports them
            ny, nx = cy + r.randint(0, 10), cx + r.randint(0, 10)
            out, err = guard(ic.chip_entire_image_to_memory, np.zeros((ny, nx)), cy, cx, r.randrange(cy), r.randrange(cx))
            uls = [[0, 0]] if err else [list(u) for u in out[1]]
            r.shuffle(uls)
            uls = uls[:20]
        else:
            uls = [[r.randint(0, 14), r.randint(0, 14)] for _ in range(n)]
        if i % 50 == 9:                 # many chips
            cy, cx = r.randint(1, 2), r.randint(1, 2)
            uls = [[r.randint(0, 14), r.randint(0, 14)] for _ in range(r.randint(60, 200))]
        k = r.randrange(5)
        q = r.choice([4, 6, 9])
        f = [lambda: r.random(), lambda: r.choice([.1, .5, .5, .9]), lambda: r.uniform(-3, 3), lambda: float(r.randint(-2, 5)), lambda: .7 + r.randint(0, 9) * 10. ** -q][k]
        ss = [f() for _ in uls]
        mosaic(ctx, "mosaic-%d" % i, uls, ss, cy, cx, r.choice([np.array, np.array, list]))
    ctx.judge("Chips_Trace")
