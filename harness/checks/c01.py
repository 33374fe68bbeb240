"""C01: GeoTIFF round trip."""
import os

import imgdrv
from imgdrv import DTYPES, PROJS, Store, random_array, random_geot
from resippy.image_objects.image_factory import ImageFactory

ASSUMPTIONS = ["GDAL itself stores and returns what it is given",
               "reference systems are compared by where they place three reference positions"]
COMP = [None, "LZW", "DEFLATE", "PACKBITS", "NONE"]


def nodata_for(r, dt):
    if dt.startswith("complex"):
        return None
    if dt.startswith("float"):
        return r.choice([None, 0, -9999, 2.5, -0.25, float("nan"), 7.0] + ([1e20, 1234567.25, -3402823.5] if dt == "float64" else [-32768.0]))
    if dt.endswith("64") and r.random() < .4:
        return r.choice([2 ** 53 + 1, 2 ** 60 + 7, 2 ** 63 - 1] + ([-2 ** 62 - 3, -2 ** 63] if dt == "int64" else [2 ** 64 - 1]))
    return r.choice([None, 0, 1, 5, 100])


def run(ctx):
    r = ctx.rng
    for i in range(ctx.n(90, 900)):
        dt = DTYPES[i % len(DTYPES)]
        shape = [r.randint(1, 7), r.randint(1, 7), r.randint(1, 5)]
        if r.random() < .15:
            shape = shape[:2]
        if r.random() < .1:
            shape = [r.randint(1, 3), r.randint(250, 300), r.randint(1, 2)]
        elif i % 12 == 5:       # many bands
            shape = [r.randint(1, 3), r.randint(1, 3), r.choice([8, 9, 17, 40, 70])]
        pname = r.choice(sorted(PROJS))
        case = ctx.case("roundtrip-%d" % i, dt=dt, proj=pname)
        st = Store(ctx, case, os.path.join(ctx.scratch, "c%d" % i))
        nod = nodata_for(r, dt)
        via = ImageFactory.geotiff if r.random() < .3 else None
        st.new("A", random_array(r, shape, dt), random_geot(r), PROJS[pname](), nod, via)
        if r.random() < .5:
            st.memds("A")
        st.write("A", "p", r.choice(COMP))
        st.open("B", "p", via)
        st.file("B")
        b = r.randrange(shape[2] if len(shape) == 3 else 1)
        st.fileband("B", b)
        st.write("B", "q", r.choice(COMP))           # second generation, from file, nothing changed
        st.meta("B")
        st.mem("B")
        st.open("C", "q", via)
        if r.random() < .5:
            st.memds("C")
        st.file("C")
        if r.random() < .3:     # put on other ground, in another projection
            h = r.choice("AC")
            st.reref(h, random_geot(r), PROJS[r.choice(sorted(PROJS))]())
            if r.random() < .5:
                st.memds(h)
            st.write(h, "r", r.choice(COMP))
            st.meta(h)
            st.open("B", "r", via)
            st.memds("B")
        if r.random() < .4:
            st.open("A", "q")
            st.write("A", "q", r.choice(COMP))       # onto its own file, unloaded
            st.open("B", "q")
            st.file("B")
            st.write("B", "r")
            st.open("C", "r")
            st.file("C")
            st.meta("C")
    # beyond one storage tile in both directions
    for k, shape in enumerate([(270, 260, 2), (257, 3, 1)] + ([(600, 520, 3)] if ctx.thorough else [])):
        case = ctx.case("tiles-%d" % k, dt="uint16", proj="utm18n")
        st = Store(ctx, case, os.path.join(ctx.scratch, "t%d" % k))
        st.new("A", random_array(r, shape, "uint16"), [4.0e5, .5, 0, 4.4e6, 0, -.5], PROJS["utm18n"](), 0)
        st.write("A", "p")
        st.open("B", "p")
        st.write("B", "p")
        st.open("C", "p")
        st.file("C")
    ctx.judge("ImageStore_Trace")
