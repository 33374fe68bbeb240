"""Exact angles and small helpers shared by the geometry drivers."""
import math
from fractions import Fraction


def rat(q):
    q = Fraction(q)
    return int(q) if q.denominator == 1 and abs(q) < 2 ** 31 else ("%d/%d" % (q.numerator, q.denominator)
                                                                  if q.denominator != 1 else str(q.numerator))


def half_angle(t, turns=0):
    """The angle (radians) whose half has tangent t."""
    return 2 * math.atan(float(Fraction(t))) + 2 * math.pi * turns


def random_tan(r, limit=None):
    """Half-angle tangents spread over the circle; |angle| <= 2 atan(limit) when a limit is given."""
    if limit is not None:
        return Fraction(r.randint(-1000, 1000), 1000) * Fraction(limit)
    k = r.randrange(6)
    if k == 0:
        return Fraction(r.choice([0, 1, -1]))
    q = Fraction(r.randint(-2000, 2000), 1000)
    return q if k < 4 or q == 0 else 1 / q


UNITS_ANGLE = {"radians": 1.0, "degrees": 180 / math.pi, "radian": 1.0, "degree": 180 / math.pi, "deg": 180 / math.pi,
               "milliradians": 1000.0, "arcminutes": 180 * 60 / math.pi}
# length units known to the specification (Units.tla)
UNITS_LENGTH = ["meters", "centimeters", "millimeters", "micrometers", "kilometers", "feet", "inches", "mm", "m", "um", "cm"]


_TR = {}


def reproject(p1, p2, x, y):
    """pyproj.transform with its set-up kept (the set-up dominates its cost)."""
    from pyproj import Transformer
    k = (p1.srs, p2.srs)
    if k not in _TR:
        _TR[k] = Transformer.from_proj(p1, p2)
    return _TR[k].transform(x, y)
