"""C21: navigation queries interpolate the recorded trajectory."""
import json
import os
import struct
import sys
import types

import numpy as np

import sensors as S
from imgdrv import PROJS, crsobs
from vf import enc, guard, num

FIELDS = ["GpsTime", "Y", "X", "Z", "XVelocity", "YVelocity", "ZVelocity", "Roll", "Pitch", "Azimuth", "WanderAngle", "XBodyAccel", "YBodyAccel",
          "ZBodyAccel", "XBodyAngRate", "YBodyAngRate", "ZBodyAngRate"]


class Pipeline:
    """Stands in for the reader library, which is not installed: reads the 17 doubles of each binary record."""

    def __init__(self, text):
        stages = json.loads(text)
        stages = stages.get("pipeline", stages) if isinstance(stages, dict) else stages
        first = stages[0]
        name = first if isinstance(first, str) else first["filename"]
        if not isinstance(first, str) and first.get("type", "readers.sbet") != "readers.sbet":
            raise RuntimeError(first["type"])
        self.data = np.fromfile(name, dtype=[(f, "<f8") for f in FIELDS])
        self.done = False

    def validate(self):
        return True

    def execute(self):
        self.done = True
        return len(self.data)

    @property
    def arrays(self):
        if not self.done:
            raise RuntimeError("not executed")
        return [self.data]


sys.modules["pdal"] = types.ModuleType("pdal")
sys.modules["pdal"].Pipeline = Pipeline
from resippy.photogrammetry.nav.nav_factory import NavFactory                      # noqa: E402

ASSUMPTIONS = ["two records or more, in order of time", "headings are interpolated as numbers: a recording across 0/360 degrees is left out",
               "binary files are read through a stand-in for the reader library, which is not installed"]
WHATS = ["xs", "ys", "alts", "rolls", "pitches", "headings"]
ARGS = {"utm": (dict(proj="utm", zone=18, ellps="WGS84", datum="WGS84"), "utm18n"), "utm1": (dict(proj="utm", zone="1", ellps="WGS84", datum="WGS84"), "utm1n"), "geo": (dict(proj="longlat", zone=None, ellps="WGS84", datum="WGS84"), "wgs84")}
METHOD = {"xs": "get_world_xs", "ys": "get_world_ys", "alts": "get_alts", "rolls": "get_rolls", "pitches": "get_pitches", "headings": "get_headings"}


def ask(case, r, nav, times, shapes=True):
    """One query at times of some shape drawn around the recorded ones."""
    sh = r.choice([(), (), (1,), (r.randint(2, 6),), (r.randint(1, 4), r.randint(1, 4)), (1, 3)])
    cnt = int(np.prod(sh)) if sh else 1

    def inside():
        i = r.randrange(len(times))
        if r.random() < .35:
            return times[i]
        j = min(i + 1, len(times) - 1)
        return times[i] + (times[j] - times[i]) * r.choice([.5, .25, r.random(), 1e-3])
    q = [min(max(float(inside()), times[0]), times[-1]) for _ in range(cnt)]
    twice = [t for k, t in enumerate(times) if t in times[:k]]
    q = [times[0] if t in twice else t for t in q]      # which of the two is meant there is left open
    if r.random() < .2:
        q[r.randrange(cnt)] = r.choice([times[0] - r.choice([1e-4, .5, 100]), times[-1] + r.choice([1e-4, .5, 100])])
    if all(t == int(t) for t in q) and r.random() < .5:
        q = [int(t) for t in q]
    a = (r.choice([lambda t: t, np.float64])(q[0]) if not sh else np.array(q).reshape(sh))
    if np.ndim(a) == 2 and r.random() < .4:       # not stored row by row
        a = r.choice([np.asfortranarray(a), np.repeat(a, 2, axis=1)[:, ::2]])
    kept = np.array(a)
    what = r.choice(WHATS + ["recs"])
    res, err = guard(getattr(nav, METHOD.get(what, "get_nav_records")), a)
    f = dict(err=err, q=[num(float(t)) for t in q], sh=list(sh), none=bool(res is None), osh=[] if res is None else list(np.shape(res)))
    if not np.array_equal(kept, a):
        f["err"] = "input overwritten"
    if what == "recs":
        recs = [] if res is None or err else [{str(k): num(float(v)) for k, v in d.items()} for d in np.ravel(np.array(res, dtype=object))]
        case.ev("recs", recs=recs, **f)
    else:
        case.ev("ask", what=what, r=[] if res is None or err else [num(float(v)) for v in np.ravel(res)], **f)


def load(case, fn, name, kw, again=None):
    """A new source, or one that already holds another recording loaded with this one."""
    nav, err = guard(again.load_from_file if again is not None else fn, name, kw["proj"], kw["zone"], kw["ellps"], kw["datum"])
    nav = nav if again is None else again
    f, err2 = guard(lambda: dict(n=enc(nav.get_num_records()), crs=crsobs(nav.get_projection()))) if not err else (None, err)
    case.ev("load", err=err2, **(f or {}))
    return None if err else nav


def text(tok, r):
    x = tok["x"]
    return x if isinstance(x, str) else r.choice(["%d", "%.3f", "%d.0"]) % x


def run(ctx):
    r = ctx.rng
    behs = ctx.mc("Nav_MC", what="every recording of up to three lines, well-formed or not: each good line kept once; queries give the records, means between, nothing outside")
    for i, b in enumerate(behs if ctx.thorough else r.sample(behs, min(150, len(behs)))):
        lines = b["lines"]
        name = os.path.join(ctx.scratch, "n%d.txt" % i)
        with open(name, "w") as f:
            for l in lines:
                f.write(r.choice([" ", "\t", "   "]).join(text(t, r) for t in l) + "\n")
        kw, pn = ARGS[r.choice(["utm", "utm1", "geo"])]
        case = ctx.case("lines-%d" % i, kind="eo", lines=lines, crs=crsobs(PROJS[pn]()))
        nav = load(case, NavFactory.from_applanix_eo_file, name, kw)
        times = [l[1]["x"] for l in lines if len(l) >= 10 and all(t["n"] for t in l[1:10])]
        for _ in range(4 if nav else 0):
            ask(case, r, nav, times)
    held = {}
    for i in range(ctx.n(120, 2500)):
        n = r.choice([2, 2, 3, r.randint(4, 12)]) if i % 20 != 3 else r.randint(60, 150)
        t0 = r.choice([0, 1000, 345678.25, 604000.5, r.uniform(0, 604800)])
        times = [t0]
        for _ in range(n - 1):
            times.append(times[-1] + r.choice([.005, .5, 1, 1, r.uniform(.01, 30), 3600]))
        times = [round(t, 6) for t in times]
        if n > 3 and r.random() < .2:           # two records of one time
            k = r.randint(1, n - 3)
            times[k + 1] = times[k]
        kind = r.choice(["eo", "sbet"])
        name = os.path.join(ctx.scratch, "r%d.dat" % i)
        key = r.choice(["utm", "utm", "utm1", "geo"])
        kw, pn = ARGS[key]
        const = dict(kind=kind, crs=crsobs(PROJS[pn]()))

        def row():
            return ([r.uniform(2e5, 8e5), r.uniform(1e6, 5e6)] if key != "geo" else [r.uniform(-180, 180), r.uniform(-89, 89)]) + [r.uniform(-50, 3000)]
        if kind == "eo":
            lines = []
            with open(name, "w") as f:
                for l in ["ID  TIME EASTING NORTHING HEIGHT OMEGA PHI KAPPA LAT LONG", "", "   (sec) (m) (m) (m) (deg) (deg) (deg) (deg) (deg)"][:r.randint(0, 3)]:
                    f.write(l + "\n")
                    lines.append([{"n": False, "x": w} for w in l.split()])
                for k, t in enumerate(times):
                    v = ["%.6f" % t] + ["%.4f" % x for x in row()] + ["%.6f" % r.uniform(-180, 180) for _ in range(3)] + ["%.8f" % r.uniform(-90, 90) for _ in range(2)]
                    if r.random() < .3:
                        v = [x.rstrip("0").rstrip(".") for x in v]
                    for j in range(len(v)):     # as other programs write them
                        if r.random() < .05:
                            v[j] = r.choice(["%.12e", "%.9E", "+%.7f"]) % float(v[j]) if float(v[j]) >= 0 else "%.12e" % float(v[j])
                            if j == 0 and "e" not in v[j]:
                                v[j] = "%.12e" % times[k]
                    f.write(r.choice(["img%03d ", "img%03d ", "2019-05-04_%03d.tif ", "%d "]) % k + r.choice(["  ", "\t"]).join(v) + r.choice(["\n", " \n", "  extra\n"]))
                    lines.append([{"n": False, "x": "id"}] + [{"n": True, "x": num(float(x))} for x in v])
                    if r.random() < .15:
                        f.write("\n")
                        lines.append([])
            times = [float("%.6f" % t) for t in times]
            const["lines"] = lines
        else:
            rows = []
            with open(name, "wb") as f:
                for t in times:
                    xyz = row()
                    v = [t, xyz[1], xyz[0], xyz[2]] + [r.uniform(-100, 100) for _ in range(3)] + [r.uniform(-3, 3) for _ in range(4)] + [r.uniform(-1, 1) for _ in range(6)]
                    f.write(struct.pack("<17d", *v))
                    rows.append([num(x) for x in v])
            const["rows"] = rows
        case = ctx.case("%s-%d" % (kind, i), **const)
        nav = load(case, NavFactory.from_applanix_eo_file if kind == "eo" else NavFactory.from_applanix_sbet_file, name, kw,
                   held.get(kind) if r.random() < .3 else None)
        held[kind] = nav
        for _ in range(8 if nav else 0):
            ask(case, r, nav, times)
    ctx.judge("Nav_Trace")
