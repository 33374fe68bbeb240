"""C26: a spectrum keeps its own data, marks nodata and resamples by band response."""
import copy

import numpy as np

from vf import guard, num
from resippy.spectral.spectrum import Spectrum
from resippy.utils.units import ureg

ASSUMPTIONS = ["values, wavelengths and widths are arrays", "spectra that are resampled have no missing values and meet every band's response",
               "band responses have increasing wavelengths", "asked with units only when the units are units of the registry"]
UNITS = {"sunit": [ureg.reflectance_zero_to_one, ureg.flick, ureg.dimensionless], "wunit": [ureg.micron, ureg.nanometer, ureg.meter]}
DTYPES = ["float64", "float64", "float32", "int64", "int16", "uint16"]


def nums(a):
    return [] if a is None else [num(x) for x in np.ravel(np.asarray(a)).tolist()]


def quantity(q):
    return [{"v": nums(q.magnitude), "u": str(q.units)}]


def see(case, sp, units):
    def read():
        f = dict(plain=nums(sp.get_spectral_data(nodata_to_nan=False)), marked=nums(sp.get_spectral_data()),
                 waves=nums(sp.get_wavelengths()), fwhm=nums(sp.get_fwhm()))
        nd = sp.get_nodata_val()
        f["nodata"] = [] if nd is None else [num(nd)]
        for k, g in (("sunit", sp.get_spectrum_units), ("wunit", sp.get_wavelength_units), ("fname", sp.get_fname)):
            f[k] = "None" if g() is None else str(g())
        f["uvals"] = quantity(sp.get_spectral_data(with_units=True)) if "sunit" in units else []
        f["uwaves"] = quantity(sp.get_wavelengths(with_units=True)) if "wunit" in units and sp.get_wavelengths() is not None else []
        f["ufwhm"] = quantity(sp.get_fwhm(with_units=True)) if "wunit" in units and sp.get_fwhm() is not None else []
        return f
    f, err = guard(read)
    case.ev("see", err=err, **(f or {}))


def give(case, sp, op, v, obj=None):
    setter = {"vals": sp.set_spectral_data, "waves": sp.set_wavelengths, "fwhm": sp.set_fwhm, "nodata": sp.set_nodata_val, "sunit": sp.set_spectrum_units,
              "wunit": sp.set_wavelength_units, "fname": sp.set_fname}[op]
    _, err = guard(setter, v)
    case.ev(op, err=err, v=([] if v is None else [num(v)]) if op == "nodata" else str(v) if op in ("sunit", "wunit", "fname") else nums(v))


def scribble(case, sp):
    def go():
        for d in (sp.get_spectral_data(), sp.get_spectral_data(nodata_to_nan=False)):
            d[...] = 55
    _, err = guard(go)
    case.ev("scribble", err=err)


def twin(case, sp):
    """A copy that is changed in every way."""
    def go():
        c = copy.deepcopy(sp)
        for a in (getattr(c, "_spectral_data", None), c.get_wavelengths(), c.get_fwhm()):
            if a is not None:
                a[...] = 66
        c.set_nodata_val(66)
        c.set_fname("other")
    _, err = guard(go)
    case.ev("copy", err=err)


def run(ctx):
    r = ctx.rng
    behs = ctx.mc("Spectrum_MC", what="every history of three steps over values, wavelengths, nodata and overwritten results; band means over small grids")
    pick = behs if ctx.thorough else r.sample(behs, min(250, len(behs)))
    for i, b in enumerate(pick[:6000]):
        case, sp = ctx.case("hist-%d" % i), Spectrum()
        dt = r.choice(DTYPES)
        for j, e in enumerate(b["hist"]):
            if e["op"] in ("vals", "waves"):
                give(case, sp, e["op"], np.array(e["v"], dtype=dt))
            elif e["op"] == "nodata":
                give(case, sp, "nodata", e["v"][0] if e["v"] else None)
            elif any(h["op"] == "vals" for h in b["hist"][:j]):
                (scribble if e["op"] == "scribble" else twin)(case, sp)
        see(case, sp, ())
    for i in range(ctx.n(150, 3000)):
        case, sp = ctx.case("rand-%d" % i), Spectrum()
        n = r.randint(2, 20) if i % 20 != 4 else r.randint(60, 200)
        dt = r.choice(DTYPES)
        nd = r.choice([0, 1, 255, 65, 30000])
        known = set()

        def values():
            v = [r.choice([nd, r.randint(0, 300), r.randint(0, 300)]) + (r.choice([0, r.randint(0, 7) / 8]) if dt[0] == "f" else 0) for _ in range(n)]
            return np.array(v, dtype=dt)
        give(case, sp, "vals", values())
        for _ in range(r.randint(2, 10)):
            op = r.choice(["vals", "waves", "fwhm", "nodata", "nodata", "sunit", "wunit", "fname", "scribble", "copy", "see"])
            if op in ("vals", "waves", "fwhm"):
                give(case, sp, op, values())
            elif op == "nodata":
                give(case, sp, op, r.choice([nd, float(nd), nd + 1, -1.23e34, None, float("nan")]))
            elif op in UNITS:
                known.add(op)
                give(case, sp, op, r.choice(UNITS[op]))
            elif op == "fname":
                give(case, sp, op, r.choice(["a.txt", "/data/b.sig"]))
            elif op == "see":
                see(case, sp, known)
            else:
                (scribble if op == "scribble" else twin)(case, sp)
        see(case, sp, known)
    for i in range(ctx.n(150, 3000)):
        case, sp = ctx.case("resample-%d" % i), Spectrum()
        n = r.randint(3, 24) if i % 30 != 4 else r.randint(60, 150)
        waves = np.cumsum([r.randint(1, 40) / 16 for _ in range(n)]) + r.choice([0, 400])
        vals = np.array([r.choice([r.randint(0, 64) / 64, r.randint(-3, 9)]) for _ in range(n)], dtype=float)
        if r.random() < .15:
            waves, vals = waves[::-1].copy(), vals[::-1].copy()
        give(case, sp, "waves", waves)
        give(case, sp, "vals", vals)
        if r.random() < .5:
            give(case, sp, "nodata", -9999.)
        give(case, sp, "sunit", r.choice(UNITS["sunit"]))
        bands, specs, centers = [], [], []
        for _ in range(r.randint(1, 4)):
            b = Spectrum()
            m = r.randint(3, 7)
            at = r.choice(list(waves))
            lo = at - r.randint(1, 60) / 16
            w = lo + np.cumsum([r.randint(1, 24) / 16 for _ in range(m)])
            w[0], w[-1] = min(w[0], at - 1 / 32), max(w[-1], at + .5)         # at least one sample is inside
            v = np.array([r.randint(1, 32) / 32 for _ in range(m)])
            if r.random() < .3:
                v[0] = v[-1] = 0
            b.set_wavelengths(w)
            b.set_spectral_data(v)
            b.set_nodata_val(None)
            specs.append(b)
            bands.append({"waves": nums(w), "vals": nums(v)})
            centers.append(float((w * v).sum() / v.sum()))
        centers = np.array(centers)
        kept = [(copy.deepcopy(b.get_wavelengths()), b.get_spectral_data()) for b in specs]

        def resample():
            out = sp.resample_spectrum_direct(specs, centers)
            for b, (w, v) in zip(specs, kept):
                if not (np.array_equal(b.get_wavelengths(), w) and np.array_equal(b.get_spectral_data(), v)):
                    raise RuntimeError("response overwritten")
            return dict(waves=nums(out.get_wavelengths()), vals=nums(out.get_spectral_data()), sunit=str(out.get_spectrum_units()))
        f, err = guard(resample)
        case.ev("resample", err=err, bands=bands, centers=nums(centers), **(f or {}))
        see(case, sp, ())
    ctx.judge("Spectrum_Trace")
