"""C11: rational polynomial cameras."""
import sensors as S

ASSUMPTIONS = ["coefficients read from files have at most 9 significant digits (GDAL's text form is exact for them)"]


def run(ctx):
    r = ctx.rng
    ctx.mc("Rpc_MC", what="the 20 terms are the 20 monomials of degree at most three; denormalisation inverts normalisation")
    for i in range(ctx.n(700, 10000)):
        far = r.random() < .3           # points well outside the normalised cube
        s = S.rpc(r, scratch=ctx.scratch if r.random() < .25 else None, strong=not far, wide=far and r.random() < .5)
        s.reach = 3. if far else .9
        case = ctx.case("rpc-%d" % i, cams=[s.desc])
        if s.err:
            S.ev2(case, "px", None, s.err, (), b=1, pts=[])
            continue
        for _ in range(r.randint(1, 3)):
            S.px_event(case, r, s)
    ctx.judge("Sensor_Trace")
