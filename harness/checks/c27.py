"""C27: spectral library readers return the wavelengths and values in the file."""
import os

import numpy as np

from vf import guard, num
from resippy.spectral.spectrum_factories.spectrum_factory import SpectrumFactory

ASSUMPTIONS = ["well-formed files: one spectrum, no blank lines after the data", "a USGS folder names one wavelength and one width file"]


def nums(a):
    return [] if a is None else [num(float(x)) for x in np.ravel(np.asarray(a))]


def in_nm(sp):
    """Wavelengths and widths in nanometres, where the units of the reader can say."""
    if isinstance(sp.get_wavelength_units(), str):
        return []
    return [nums(a.to("nanometer").magnitude) for a in (sp.get_wavelengths(with_units=True), sp.get_fwhm(with_units=True))]


def observe(sp, name):
    nd = sp.get_nodata_val()
    return dict(waves=nums(sp.get_wavelengths()), vals=nums(sp.get_spectral_data(nodata_to_nan=False)), marked=nums(sp.get_spectral_data()), fwhm=nums(sp.get_fwhm()),
                nodata=[] if nd is None else [num(nd)], wunit=str(sp.get_wavelength_units()), vunit=str(sp.get_spectrum_units()), nm=in_nm(sp),
                of=[] if sp.get_fname() is None else [os.path.relpath(sp.get_fname(), os.path.dirname(os.path.abspath(name)))], name=os.path.basename(name))


def read(ctx, r, file, text, delim=",", nl="\n", end=True, tree=None):
    """Write the file (and its folder, for USGS) and read it with its reader."""
    base = os.path.join(ctx.scratch, "lib%d" % len(os.listdir(ctx.scratch)))
    os.makedirs(os.path.join(base, "chapter"))
    name = os.path.join(base, "chapter", {"csv": "s.csv", "svc": "s.sig", "envi": "s.txt", "usgs": "s_AREF.txt"}[file["fmt"]])

    def put(fn, lines):
        with open(fn, "w", newline="") as f:
            f.write(nl.join(lines) + (nl if end else ""))
    put(name, text)
    for fn, lines in (tree or {}).items():
        put(os.path.join(base, fn), lines)
    here = os.getcwd()
    try:
        if file["fmt"] == "usgs" and r.random() < .3:
            os.chdir(r.choice([base, os.path.dirname(name)]))
            name = os.path.relpath(name)
        F = SpectrumFactory
        if file["fmt"] == "csv":
            kw = {}
            if delim != "," or r.random() < .5:
                kw["delimiter"] = delim
            for k, key, dflt in (("nheader", "nheader", 1), ("wave_index", "wi", 0), ("reflectance_index", "ri", 1)):
                if file[key] != dflt or r.random() < .5:
                    kw[k] = file[key]
            return guard(lambda: observe(F.csv.ascii.CsvAsciiFileFactory.from_csv_file(name, **kw), name))
        fn = {"svc": lambda: F.svc.ascii.SvcAsciiFileFactory.from_sig_file, "envi": lambda: F.envi.ascii.EnviAsciiPlotFileFactory.from_ascii_file,
              "usgs": lambda: F.usgs.ascii.UsgsAsciiSpectralFactory.from_ascii_file}[file["fmt"]]
        return guard(lambda: observe(fn()(name), name))
    finally:
        os.chdir(here)


def fmtnum(r, fmt):
    return r.choice({"csv": ["%.4f", "%g", "%.6e", "%d"], "svc": ["%.1f", "%.2f", "%.3f"], "envi": ["%12.6f", "%.4f", "%.5e"], "usgs": ["%.7e", "%.6f", "%.4f"]}[fmt])


HEADERS = {"word": ["name= /home/a.sig", "Wavelength,Reflectance", "ENVI ASCII Plot File", "comm= ", "units= Radiance, Radiance"],
           "late data": ["instrument data= 1", "Column 2: data~~2", "metadata= x", "comm= data"], "num": ["7 7 7 7"]}


def run(ctx):
    r = ctx.rng
    behs = ctx.mc("Library_MC", what="files built line by line in each text format: every data line once, in order, no header line")
    k = 0
    for b in behs if ctx.thorough else r.sample(behs, min(150, len(behs))):
        file = b["file"]
        delim = r.choice([",", ";", "\t"]) if file["fmt"] == "csv" else r.choice([" ", "  ", "\t"])
        text = []
        for l in file["lines"]:
            text.append("data= " if l["start"] == "data" else r.choice(HEADERS[l["start"]]) if l["start"] != "num" else delim.join(str(x) for x in l["f"]))
        f, err = read(ctx, r, file, text, delim, end=r.random() < .7)
        ctx.case("lines-%d" % k).ev("read", err=err, file=file, **(f or {}))
        k += 1
    for i in range(ctx.n(160, 3000)):
        fmt = r.choice(["csv", "svc", "envi", "usgs"])
        n = r.choice([1, 2, r.randint(3, 30)]) if i % 12 != 5 else r.randint(90, 400)
        um = fmt == "usgs"
        waves, w = [], r.uniform(.3, .5) if um else r.uniform(300, 500)
        for _ in range(n):
            waves.append(w)
            w += r.uniform(.001, .02) if um else r.uniform(.5, 12)
        if r.random() < .2:
            waves.reverse()
        delim = r.choice([",", ";", "\t", "|"]) if fmt == "csv" else r.choice([" ", "  ", "\t", "     "])
        fw, fv = fmtnum(r, fmt), fmtnum(r, fmt)
        say = lambda f, x: (f % x).strip()
        row = lambda words: {"start": "num", "f": [num(float(x)) for x in words]}
        head = lambda cnt: [r.choice(HEADERS[r.choice(["word", "late data"])]) for _ in range(cnt)]
        lines, text, tree = [], [], None
        file = {"fmt": fmt, "nheader": 0, "wi": 0, "ri": 0, "lines": lines}
        cols = 2
        if fmt == "csv":
            cols = r.randint(2, 5)
            file["nheader"] = r.choice([0, 1, 1, 2, 5])
            file["wi"], file["ri"] = r.sample(range(cols), 2)
            if r.random() < .4:
                file["wi"], file["ri"] = 0, 1
            text += head(file["nheader"])
        elif fmt == "svc":
            cols, file["ri"] = 4, 3
            text += ["/*** Spectra Vista SIG Data ***/"] + head(r.randint(0, 20)) + [r.choice(["data= ", "data=", "data= %d" % n])]
        elif fmt == "envi":
            file["ri"] = 1
            text += head(3)
        else:
            cols = 1
            text += [" splib07a Record=%d: Name AREF" % r.randint(1, 9999)]
        lines += [{"start": "data" if t.startswith("data") and fmt == "svc" else "word", "f": []} for t in text]
        for j in range(n):
            words = [say(fv, r.choice([r.uniform(0, 1), r.uniform(0, 100), 0]) if fmt != "usgs" else r.uniform(0, 1.2)) for _ in range(cols)]
            if fmt == "usgs":
                if r.random() < .15:
                    words[0] = r.choice(["-1.2300000e+034", "-1.23e34"])
            else:
                words[file["wi"]] = say(fw, waves[j])
            lines.append(row(words))
            text.append((" " if fmt in ("envi", "svc", "usgs") and r.random() < .4 else "") + delim.join(words))
        if fmt == "usgs":
            tree, file["dir"] = {}, []
            for kind, names in (("waves", ["splib07a_Wavelengths_ASD_0.35-2.5_microns.txt", "waves_AVIRIS.txt", "S07_WAVELENGTHS_x.txt"]),
                                ("widths", ["splib07a_Bandpass_(FWHM)_ASDFR.txt", "Resolution_AVIRIS.txt", "s07_RESOLUTION.txt"]), ("other", ["readme.txt", "chapterS.txt", "microwave_notes.txt", "resolving.txt", "band_passes.txt"])):
                vals = [say(fw, x if kind == "waves" else r.uniform(.001, .02)) for x in waves]
                d = {"kind": kind, "lines": [{"start": "word", "f": []}] + [row([x]) for x in vals]}
                tree[r.choice(names)] = [" splib07a Record=1: " + kind] + [(" " if r.random() < .5 else "") + x for x in vals]
                file["dir"].append(d)
        f, err = read(ctx, r, file, text, delim, nl=r.choice(["\n", "\n", "\r\n"]), end=r.random() < .7, tree=tree)
        ctx.case("%s-%d" % (fmt, i)).ev("read", err=err, file=file, **(f or {}))
    ctx.judge("Library_Trace")
