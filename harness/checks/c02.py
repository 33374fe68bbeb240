"""C02: histories of image objects and files, replayed from the specification and at random."""
import os

from imgdrv import PROJS, Store, random_array

ASSUMPTIONS = ["files are not modified by other processes",
               "reads through an object whose file was rewritten after it was opened are left unspecified"]
GEOT = [100., 2., 0., 200., 0., -2.]


class Replayer:
    """Turns the mutators of a specification behaviour into calls, observing in between."""

    def __init__(self, ctx, st, r, shape, dt, eager):
        self.st, self.r, self.shape, self.dt, self.eager = st, r, shape, dt, eager
        self.proj = PROJS["utm18n"]()
        self.loaded, self.src, self.fresh = {}, {}, {}
        self.pool = None
        self.band = r.sample(range(shape[2]), 2)     # the two bands of the specification

    def arr(self):
        return self.r.choice(self.pool) if self.pool else random_array(self.r, self.shape, self.dt)

    def observe(self, h):
        st, r = self.st, self.r
        b = r.randrange(self.shape[2])
        acts = [lambda: st.mem(h), lambda: st.memband(h, b), lambda: st.meta(h)]
        if self.fresh.get(h):
            acts += [lambda: st.file(h), lambda: st.fileband(h, b)]
        r.shuffle(acts)
        for a in acts[:r.randint(1, len(acts))]:
            a()

    def step(self, a):
        st, h = self.st, a["h"]
        if a["a"] == "new":
            st.new(h, self.arr(), GEOT, self.proj, 3)
            self.src[h] = None
            self.fresh[h] = False
        elif a["a"] == "open":
            st.open(h, a["p"])
            self.src[h] = a["p"]
            self.fresh[h] = True
        elif a["a"] == "setall":
            st.setall(h, self.arr())
        elif a["a"] == "setband":
            st.setband(h, self.band[a["b"]], self.arr()[:, :, 0])
        elif a["a"] == "write":
            st.write(h, a["p"])
            for k in self.src:
                if self.src[k] == a["p"]:
                    self.fresh[k] = False
        elif a["a"] == "memds":
            st.memds(h)
        for k in list(self.st.im):
            if self.eager > self.r.random():
                self.observe(k)

    def end(self):
        """Everything observable at the end, then every file through a new object."""
        for k in sorted(self.st.im):
            self.st.mem(k)
            if self.fresh.get(k):
                self.st.file(k)
        for p in ("p", "q", "r"):
            if os.path.exists(self.st.path(p)):
                self.st.open("C", p)
                self.st.file("C")
                self.st.mem("C")


def replay(ctx, tag, beh, i):
    r = ctx.rng
    shape = (r.randint(1, 4), r.randint(1, 4), r.choice([2, 2, 3, 4, 5]))
    if i % 40 == 7:
        shape = (r.randint(1, 2), r.randint(1, 2), r.choice([9, 12, 30]))
    dt = r.choice(["uint8", "int16", "float32", "float64"])
    case = ctx.case(tag, shape=list(shape))
    rp = Replayer(ctx, Store(ctx, case, os.path.join(ctx.scratch, "h%d" % i)), r, shape, dt, r.choice([0, .3, 1]))
    if not any(a["a"] == "setband" for a in beh) and r.random() < .6:
        # whole images only: two arrays, handed over as they are, possibly to several objects
        rp.pool = [rp.arr(), rp.arr()]
        rp.st.copy = False
    for a in beh:
        rp.step(a)
    rp.end()


def run(ctx):
    behs = ctx.mc("ImageStore_MC", what="all behaviours of 5 mutators over 2 objects, 2 files, 2 bands; 7 properties")
    ctx.notes["spec_behaviours_total"] = len(behs)
    pick = behs if ctx.thorough else ctx.rng.sample(behs, 700)
    for i, b in enumerate(pick):
        replay(ctx, "spec-%d" % i, b, i)
    sim = ctx.mc("ImageStore_MC", "ImageStore_Sim", what="random behaviours of 14 mutators", workers=1,
                 simulate=ctx.n(60, 1500), depth=16)
    for i, b in enumerate(sim):
        # in-memory datasets load the image as a side effect; insert some
        b = list(b)
        for _ in range(ctx.rng.randrange(3)):
            k = ctx.rng.randrange(len(b))
            b.insert(k + 1, {"a": "memds", "h": b[k]["h"]})
        replay(ctx, "sim-%d" % i, b, 100000 + i)
    ctx.judge("ImageStore_Trace")
