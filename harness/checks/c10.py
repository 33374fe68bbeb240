"""C10: OpenCV and Pix4D cameras apply their distortion model."""
from fractions import Fraction

import sensors as S
from vf import enc, guard

ASSUMPTIONS = ["poses are given to the code as doubles nearest to the exact ones", "points are in front of the camera, off the edge of its field of view by up to 30 percent"]


def run(ctx):
    r = ctx.rng
    ctx.mc("Camera_MC", what="exact grid of poses: undistorted cameras are the ideal one, radial distortion keeps the radius")
    for i in range(ctx.n(800, 12000)):
        s = (S.opencv if i % 2 else S.pix4d)(r)
        s.behind = .07 if r.random() < .5 else 0.
        case = ctx.case("%s-%d" % (s.desc["k"], i), cams=[s.desc])
        if s.err:
            S.ev2(case, "px", None, s.err, (), b=1, pts=[])
            continue
        for _ in range(r.randint(1, 2)):
            S.px_event(case, r, s)
        if i % 2 and r.random() < .3:       # a later pose replaces the earlier one
            t, xyz = S.tans(r), [r.uniform(3e5, 7e5), r.uniform(1e6, 6e6), r.uniform(50, 3000)]
            d = dict(s.desc, xyz=enc(xyz), t=[S.rat(q) for q in t])
            case.d["cams"].append(d)
            _, err = guard(s.calc.init_extrinsic, *xyz, *[S.half_angle(q) for q in t])
            s2 = S.Sensor(d, s.calc, s.proj, s.place(xyz, t), s.bore @ S.mat(t), s.half)
            S.px_event(case, r, s2, b=2)
        elif i % 2 and r.random() < .3:     # mounted otherwise: straight below, or on another arm
            arm = [r.choice([0., 0., r.uniform(-2, 2)]) for _ in range(3)]
            bt = [Fraction(0)] * 3 if r.random() < .5 else S.tans(r)
            d = dict(s.desc, arm=enc(arm), bt=[S.rat(q) for q in bt])
            case.d["cams"].append(d)
            _, err = guard(s.calc.init_offsets, *arm, *[S.half_angle(q) for q in bt])
            xyz, t = s.pose
            S.px_event(case, r, S.Sensor(d, s.calc, s.proj, s.place(xyz, t, arm), S.mat(bt) @ S.mat(t), s.half), b=2)
    ctx.judge("Sensor_Trace")
