"""C30: file and text utilities are exact over every input."""
import os
from fractions import Fraction

import numpy as np

from vf import guard
from resippy.utils import file_utils as fu
from resippy.utils import numpy_and_array_utils as nu
from resippy.utils import string_utils as su
from resippy.utils.csv_utils import CsvUtils

ASSUMPTIONS = ["list entries and table cells hold no line ends (cells may hold LF within quotes)", "extensions and prefixes of which none contains another", "camel case names of letters and digits",
               "tables with as many cells in each row as in the header"]


def codes(s):
    return [ord(c) for c in s]


def text(t):
    return "".join(chr(c) for c in t)


def strings(case, t):
    s = text(t)
    for op, fn in (("clean", su.cleanup_newlines), ("remove", su.remove_newlines)) + ((("snake", su.convert_to_snake_case),) if all(c not in (10, 13) for c in t) else ()):
        r, err = guard(fn, s)
        case.ev(op, err=err, t=list(t), r=[] if err else codes(r))


def write_read(case, r, name, lst):
    given = [text(l) for l in lst]
    _, err = guard(fu.write_text_list_to_file, given, name)
    case.ev("write", err=err, list=[list(l) for l in lst], after=[codes(s) for s in given])
    back, err = guard(fu.read_text_list_from_file, name)
    case.ev("read", err=err, r=[] if err else [codes(s) for s in back])


def folder(ctx, r, case, entries, base):
    os.makedirs(base)
    have = [text(e["name"]) for e in entries]
    entries = list(entries) + [dict(name=[ord(c) for c in n], dir=d) for n, d in ((".cache", True), ("Ab.tif", False), ("B", False)) if r.random() < .3 and n not in have]
    for e in entries:
        p = os.path.join(base, text(e["name"]))
        if e["dir"]:
            os.makedirs(os.path.join(p, "inner.tif"))
        else:
            open(p, "w").close()
    case.ev("made", err="", entries=entries)
    names = lambda paths: [codes(os.path.basename(p)) for p in paths]
    sanity = lambda paths: all(os.path.normpath(p) == os.path.join(base, os.path.basename(p)) for p in paths)
    d = base + r.choice(["", "", "/"])
    exts = r.choice([[], [], ["tif"], ["txt"], ["tif", "txt"], ["TIF"], ["tif", "TIF", "csv"], ["none"]])
    arg = [r.choice(["", ".", "*."]) + x for x in exts]
    if len(arg) == 1 and r.random() < .6:
        arg = arg[0]
    full = r.random() < .5
    kw = {}
    if exts:
        kw["extensions"] = arg
    if not full or r.random() < .5:
        kw["return_fullpaths"] = full
    res, err = guard(fu.get_all_files_in_dir, d, **kw)
    case.ev("files", err=err, exts=[codes(x) for x in exts], pre=[], r=[] if err else names(res), paths=bool(not err and (sanity(res) if full else all("/" not in x for x in res))))
    pre = r.choice([["a"], ["b"], ["a.", "b"], ["ab"], ["zz"], ["a["]])
    res, err = guard(fu.get_files_in_dir_that_start_with, d, pre[0] if len(pre) == 1 and r.random() < .5 else pre, **kw)
    case.ev("files", err=err, exts=[codes(x) for x in exts], pre=[codes(x) for x in pre], r=[] if err else names(res),
            paths=bool(not err and (sanity(res) if full else all("/" not in x for x in res))))
    res, err = guard(fu.get_all_folders_in_dir, d)
    case.ev("folders", err=err, r=[] if err else names(res), paths=bool(not err and sanity(res)))


def cell(r, delim):
    return "".join(r.choice(["a", "B", "7", ".", " ", '"', delim, ";", "é", "-", "\n" if r.random() < .2 else "x"]) for _ in range(r.choice([0, 1, 3, 6])))


def tag(x):
    return "%s:%r" % (type(x).__name__, x)


def run(ctx):
    r = ctx.rng
    behs = ctx.mc("Files_MC", what="every text of four characters, every folder of eight entries and every history of three written lists")
    groups = {k: [b for b in behs if b["kind"] == k] for k in ("text", "folder", "file")}
    pick = lambda k, n: groups[k] if ctx.thorough else r.sample(groups[k], min(n, len(groups[k])))
    for i, b in enumerate(pick("text", 400)):
        if i % 20 == 0:
            case = ctx.case("text-%d" % i)
        strings(case, b["text"])
    for i, b in enumerate(pick("folder", 90)):
        folder(ctx, r, ctx.case("folder-%d" % i), b["folder"], os.path.join(ctx.scratch, r.choice(["d%d", "d[%d]", "d %d*"]) % i))
    for i, b in enumerate(pick("file", 80)):
        case, name = ctx.case("lists-%d" % i), os.path.join(ctx.scratch, "l%d.txt" % i)
        for l in b["writes"]:
            write_read(case, r, name, l)
    for i in range(ctx.n(120, 2500)):
        case = ctx.case("rand-%d" % i)
        strings(case, [r.choice([10, 13, 32, 65, 97, 233, 0x4e2d, 9, 11, 12, 0x85, 0x2028]) for _ in range(r.randint(0, 30))])
        camel = [ord(r.choice("abcXYZ019Aq")) for _ in range(r.randint(1, 15))]
        res, err = guard(su.convert_to_snake_case, text(camel))
        case.ev("snake", err=err, t=camel, r=[] if err else codes(res))
        name = os.path.join(ctx.scratch, "r%d.txt" % i)
        for _ in range(r.randint(1, 3)):
            write_read(case, r, name, [[ord(r.choice("ab ,\t#é.\"'\x0b\x0c\x1c\x85\u2028")) for _ in range(r.choice([0, 1, r.randint(2, 20)]))] for _ in range(r.randint(0, 8))])
        delim = r.choice([",", ";", "\t"])
        header = []
        for j in range(r.randint(1, 5)):
            header.append(r.choice(["name", "x", "long name", "a" + delim + "b", "Z", " n", "N"]) + str(j) + r.choice(["", "", "", " "]))
        rows = [[cell(r, delim) for _ in header] for _ in range(r.choice([0, 1, r.randint(2, 6)]))]
        if len(header) == 1:
            rows = [[c or "q" for c in row] for row in rows]      # a row of one empty cell is a blank line
        def quote(c):
            return '"' + c.replace('"', '""') + '"' if any(x in c for x in delim + '"\n') or r.random() < .1 else c
        f = os.path.join(ctx.scratch, "t%d.csv" % i)
        with open(f, "w", encoding="utf-8") as out:
            out.write("\n".join(delim.join(quote(c) for c in row) for row in [header] + rows) + r.choice(["", "\n"]))
        d, err = guard(lambda: CsvUtils.single_line_header_csv_to_dict(f, *([delim] if delim != "," or r.random() < .5 else [])))
        case.ev("table", err=err, header=header, rows=rows, r={} if err else {str(k): [str(x) for x in v] for k, v in d.items()})
        vals = [r.choice([0, 1, 2, 3, "a", "b", None, 2.5, True, 2.0, 0.0]) for _ in range(r.randint(0, 8))]
        x = r.choice([0, 2, "a", None, 7, 2.5])
        kept = [v for v in vals]
        # True equals 1 in Python: tag by value so that equal values have equal tags
        t = lambda v: "number:%s" % Fraction(v) if isinstance(v, (bool, int, float)) else tag(v)
        res, err = guard(nu.remove_all_entries_from_list, vals, x)
        case.ev("drop", err=err, t=[t(v) for v in kept], x=t(x), r=[] if err else [t(v) for v in res], after=[t(v) for v in vals])
        n, m = r.randint(1, 5), r.randint(1, 4)
        tup = [tuple(r.choice([r.randint(0, 9), r.random(), "s"]) for _ in range(m)) for _ in range(n)]
        tg = lambda rows: [[tag(v) for v in row] for row in rows]
        res, err = guard(nu.list_of_tuples_to_separate_lists, list(tup))
        case.ev("apart", err=err, t=tg(tup), r=[] if err else tg(res))
        res, err = guard(nu.separate_lists_to_list_of_tuples, [list(x) for x in tup])
        case.ev("together", err=err, t=tg(tup), r=[] if err else tg(res))
        if i % 3 == 0:
            base = os.path.join(ctx.scratch, "m%d" % i)
            subs = [r.choice(["a", "b c", "x.y"]) for _ in range(r.randint(1, 3))]
            want = "/".join([base] + subs)
            p, err = guard(fu.get_path_from_subdirs, base, subs)
            case.ev("path", err=err, r="" if err else p, want=want)
            for again in range(2):
                _, err = guard(fu.make_dir_if_not_exists, want)
                kept = True
                if again:
                    kept = os.path.exists(os.path.join(want, "keep.txt"))
                elif os.path.isdir(want):
                    open(os.path.join(want, "keep.txt"), "w").close()
                case.ev("mkdir", err=err, isdir=os.path.isdir(want), kept=kept)
    ctx.judge("Files_Trace")
