"""C22: UTC and GPS time conversions agree with the leap-second table and invert."""
import importlib
import os
import time
from fractions import Fraction

import numpy as np

from vf import guard, num
import resippy.utils.time_utils as tu

ASSUMPTIONS = ["instants from 1981 on; a GPS time within an inserted second has no UTC timestamp", "results to a microsecond (seconds of week to ten)"]
ZONES = ["UTC", "America/New_York", "Asia/Kolkata", "Pacific/Kiritimati", "EST5EDT", "NZST-12NZDT"]
LEAPS = [362793600, 394329600, 425865600, 489024000, 567993600, 631152000, 662688000, 709948800, 741484800, 773020800, 820454400, 867715200, 915148800,
         1136073600, 1230768000, 1341100800, 1435708800, 1483228800]


def put(case, r, u, m):
    if isinstance(u, Fraction):
        u = float(u)
    u = r.choice([float, np.float64])(u) if u != int(u) or r.random() < .7 else int(u)
    g, err = guard(m.utc_timestamp_to_gps_timestamp, u)
    case.ev("gps", err=err, u=num(u), r=num(g) if not err else 0)
    if not err:
        b, err = guard(m.gps_timestamp_to_utc_timestamp, g)
        case.ev("back", err=err, u=num(u), r=num(b) if not err else 0)
    w, err = guard(m.utc_timestamp_to_gps_week_and_seconds, u)
    ok = not err and len(w) == 2
    case.ev("week", err=err, u=num(u), w=num(w[0]) if ok else 0, s=num(w[1]) if ok else 0)


def run(ctx):
    r = ctx.rng
    behs = ctx.mc("Clock_MC", what="a clock in half seconds over every insertion, week boundaries, 1981 and 2031: scales convert back and forth, weeks count from the epoch")
    old = os.environ.get("TZ")
    try:
        for z, zone in enumerate(ZONES):
            os.environ["TZ"] = zone
            time.tzset()
            m = importlib.reload(tu)            # the table is built on import
            case = ctx.case("zone-%s" % zone)
            for b in behs if z < 2 or ctx.thorough else r.sample(behs, 60):
                put(case, r, Fraction(b["u"]), m)
            for i in range(ctx.n(40, 600)):
                if i % 20 == 0:
                    case = ctx.case("zone-%s-%d" % (zone, i))
                t = r.randint(347155200, 2500000000)
                if r.random() < .5:
                    t = r.choice(LEAPS) + r.randint(-40, 40) + r.choice([0, 0, 0, -1, 1]) * r.choice([3600, 18000, 86400])
                put(case, r, t + r.choice([0, 0, r.randint(0, 1023) / 1024]), m)
                w = 315964800 + 604800 * r.randint(60, 3000)        # about the turn of a week
                w -= m.utc_timestamp_to_gps_timestamp(w) - (w - 315964800)
                put(case, r, w + r.choice([-1, 1]) * r.choice([2 ** -12, 2 ** -11, 2 ** -8, .5]), m)
                g = (r.choice(LEAPS) - 315964800 + r.randint(-3, 25) if r.random() < .6 else r.randint(31190400, 2 * 10 ** 9)) + r.choice([0, r.randint(0, 1023) / 1024])
                u, err = guard(m.gps_timestamp_to_utc_timestamp, g)
                case.ev("utc", err=err, g=num(g), r=num(u) if not err else 0)
    finally:
        if old is None:
            os.environ.pop("TZ", None)
        else:
            os.environ["TZ"] = old
        time.tzset()
        importlib.reload(tu)
    ctx.judge("Clock_Trace")
