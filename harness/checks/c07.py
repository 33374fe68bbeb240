"""C07: rotation matrices, angle recovery and boresight offsets."""
import math
from fractions import Fraction

import numpy as np

from geo import half_angle, random_tan, rat
from vf import enc, guard, num, obs, NOOBS
from resippy.utils import photogrammetry_utils as pu

ASSUMPTIONS = ["angles are given to the code as the double nearest to 2*atan(t)",
               "angle recovery is checked for |cos(pitch)| > 1e-6"]


def drive(ctx, tag, order, t, r):
    case = ctx.case(tag)
    turns = [0, 0, 0] if r.random() < .7 else [r.randint(-2, 2) for _ in range(3)]
    ang = [half_angle(x, n) for x, n in zip(t, turns)]
    m, err = guard(pu.create_M_matrix, ang[0], ang[1], ang[2], order) if order != "rpy" or r.random() < .5 \
        else guard(pu.create_M_matrix, *ang)
    case.ev("matrix", order=order, t=[rat(x) for x in t], err=err, o=NOOBS if err else obs(m))
    if err:
        return None
    if math.hypot(m[0, 0], m[1, 0]) > 1e-6:
        a, err = guard(pu.solve_for_omega_phi_kappa, m)
        case.ev("recover", m=enc(m.ravel()), err=err,
                cs=[] if err else [[num(float(np.cos(x))), num(float(np.sin(x)))] for x in a])
    return m


def run(ctx):
    r = ctx.rng
    behs = ctx.mc("Rotation_MC", what="all six orders over a grid of exact angles: proper, closed form, recoverable")
    prev = None
    for i, b in enumerate(behs):
        drive(ctx, "grid-%d" % i, b["order"], [Fraction(str(x)) for x in b["t"]], r)
    mats = []
    for i in range(ctx.n(1500, 30000)):
        order = r.choice(["rpy", "ryp", "pry", "pyr", "yrp", "ypr"])
        t = [random_tan(r) for _ in range(3)]
        if r.random() < .1:         # looking almost along the turning axis
            t[1] = r.choice([1, -1]) * (1 - Fraction(r.randint(1, 9), 10 ** r.randint(3, 5)))
        m = drive(ctx, "random-%d" % i, order, t, r)
        if m is not None:
            mats.append(m)
    for i in range(ctx.n(300, 3000)):
        a, b = r.choice(mats), r.choice(mats)
        o, err = guard(pu.solve_for_boresight_angle_offsets, a.copy(), b.copy())
        ctx.case("boresight-%d" % i).ev("boresight", a=enc(a.ravel()), b=enc(b.ravel()), err=err,
                                        o=NOOBS if err else obs(o))
    ctx.judge("Rotation_Trace")
