"""C08: histories of fixtured cameras."""
from fractions import Fraction

import numpy as np

from geo import UNITS_ANGLE, UNITS_LENGTH, half_angle, random_tan, rat
from vf import enc, guard, num
from resippy.utils import photogrammetry_utils as pu
from resippy.image_objects.earth_overhead.earth_overhead_point_calculators.fixtured_camera import FixturedCamera

ASSUMPTIONS = ["angles are given to the code as the double nearest to 2*atan(t) in the named unit"]
ORDERS = ["rpy", "ryp", "pry", "pyr", "yrp", "ypr"]


class Driver:
    def __init__(self, case, r):
        self.case, self.r = case, r
        self.cam = {"a": FixturedCamera(), "b": FixturedCamera()}

    def vec(self, big):
        r = self.r
        k = r.randrange(3)
        if k == 0:
            return [r.randint(-9, 9) for _ in range(3)]
        s = r.choice([1e-3, 1., 100., 5e5 if big else 10.])
        return [r.uniform(-s, s) for _ in range(3)]

    def angles(self):
        r = self.r
        t = [random_tan(r) for _ in range(3)]
        u = [r.choice(list(UNITS_ANGLE)) for _ in range(3)]
        v = [half_angle(x) * UNITS_ANGLE[y] for x, y in zip(t, u)]
        if u == ["radians"] * 3 and r.random() < .5:
            return t, v, {}
        return t, v, u

    def step(self, h, op):
        r, cam, case = self.r, self.cam[h], self.case
        if op == "pos":
            x = self.vec(True)
            _, err = guard(cam.set_fixture_xyz, *x)
            case.ev(op, h=h, xyz=enc(x), err=err)
        elif op in ("att", "bore"):
            m = pu.create_M_matrix(*[half_angle(random_tan(r)) for _ in range(3)], order=r.choice(ORDERS))
            if r.random() < .2:
                m = m[:, ::1][[1, 2, 0]]        # any rotation, not only those of the factory
            _, err = guard(cam.set_fixture_orientation if op == "att" else cam.set_boresight_matrix, m.copy())
            case.ev(op, h=h, m=enc(m.ravel()), err=err)
        elif op in ("attrpy", "borerpy"):
            t = [random_tan(r) for _ in range(3)]
            u = [r.choice(list(UNITS_ANGLE)) for _ in range(3)]
            order = r.choice(ORDERS)
            kw = {"order": order, "roll_units": u[0], "pitch_units": u[1], "yaw_units": u[2]}
            if r.random() < .3:
                u = ["radians"] * 3
                kw = {"order": order}
            if order == "rpy" and r.random() < .5:
                del kw["order"]
            v = [half_angle(x) * UNITS_ANGLE[y] for x, y in zip(t, u)]
            f = cam.set_fixture_orientation_by_roll_pitch_yaw if op == "attrpy" else \
                cam.set_boresight_matrix_from_camera_relative_rpy_params
            _, err = guard(f, *v, **kw)
            case.ev(op, h=h, t=[rat(x) for x in t], order=order, u=u, err=err)
        elif op == "arm":
            x = self.vec(False)
            u = [r.choice(UNITS_LENGTH) for _ in range(3)]
            kw = {"x_units": u[0], "y_units": u[1], "z_units": u[2]}
            if r.random() < .3:
                u, kw = ["meters"] * 3, {}
            _, err = guard(cam.set_relative_camera_xyz, *x, **kw)
            case.ev(op, h=h, xyz=enc(x), u=u, err=err)

    def look(self, h):
        cam, case = self.cam[h], self.case
        v, err = guard(cam.get_fixture_xyz)
        case.ev("fixture_xyz", h=h, v=enc(v), err=err)
        v, err = guard(cam.get_camera_absolute_xyz)
        case.ev("xyz", h=h, v=[] if err else [num(float(x)) for x in v], err=err)
        v, err = guard(cam.get_camera_absolute_M_matrix)
        case.ev("m", h=h, v=[] if err else [num(float(x)) for x in np.asarray(v).ravel()], err=err)


OPS = ["pos", "att", "attrpy", "arm", "bore", "borerpy"]


def run(ctx):
    r = ctx.rng
    behs = ctx.mc("Fixture_MC", what="all orders of 5 setter calls; state is the last call of each part, pose is rigid")
    ctx.notes["spec_behaviours_total"] = len(behs)
    for i, b in enumerate(behs if ctx.thorough else r.sample(behs, 500)):
        d = Driver(ctx.case("spec-%d" % i), r)
        for a in b:
            d.step("a", a["op"])
            if r.random() < .3:
                d.look("a")
        for op in r.sample(["pos", "att", "arm", "bore"], 4):   # complete the pose
            if r.random() < .5 or not any(x["op"].startswith(op) for x in b):
                d.step("a", op)
        d.look("a")
    for i in range(ctx.n(150, 3000)):
        d = Driver(ctx.case("two-%d" % i), r)
        for _ in range(r.randint(8, 24)):
            d.step(r.choice("ab"), r.choice(OPS))
            if r.random() < .3:
                d.look(r.choice("ab"))
        d.look("a")
        d.look("b")
    ctx.judge("Fixture_Trace")
