"""How tightly the specification holds each recorded field.

    VF_KEEP=DIR ./check.sh CNN quick; /opt/venv/bin/python tools/corrupt.py DIR/X_Trace_0.ndjson [per-field [seed]]

Alters one recorded value at a time in a kept trace (a number, a truth value, an error name) and has TLC judge every altered
case.  Prints, per event kind and field, how many of the altered records the specification rejects."""
import copy
import json
import os
import random
import re
import sys
import tempfile
from fractions import Fraction

sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "harness"))
import tlc                                                      # noqa: E402

RATIO = re.compile(r"^-?\d+(/\d+)?$")


def leaves(x, path=()):
    if isinstance(x, dict):
        for k, v in x.items():
            yield from leaves(v, path + (k,))
    elif isinstance(x, list):
        for i, v in enumerate(x):
            yield from leaves(v, path + (i,))
    else:
        yield path, x


def altered(v, r):
    if isinstance(v, bool):
        return not v
    if isinstance(v, int):
        return v + r.choice([-1, 1]) * max(1, abs(v) // 20)
    if isinstance(v, str):
        if v == "nan":
            return 3
        if RATIO.match(v):
            f = Fraction(v)
            f += r.choice([-1, 1]) * max(abs(f) / 20, Fraction(1, 2))
            return int(f) if f.denominator == 1 and abs(f) < 2 ** 31 else ("%d" % f if f.denominator == 1 else "%d/%d" % (f.numerator, f.denominator))
    return None


def judge(module, cases):
    """1-based numbers of rejected cases; a case the specification cannot evaluate is rejected too."""
    bad, live = {}, list(range(len(cases)))
    while live:
        with tempfile.NamedTemporaryFile("w", suffix=".ndjson", delete=False) as f:
            for i in live:
                f.write(json.dumps(cases[i]) + "\n")
        r = tlc.run(module, None, env={"VF_TRACE": f.name}, workers=6, heap="6g")
        os.remove(f.name)
        for e in r.emitted.get("@@FAIL", []):
            bad.setdefault(live[e["c"] - 1], e["bad"])
        if not r.error:
            return bad
        cs = re.findall(r"/\\ jcase = (\d+)", r.out)
        if not cs:
            raise SystemExit(r.error[:2000])
        k = live[int(cs[-1]) - 1]
        bad[k] = ["cannot be evaluated"]
        live.remove(k)
    return bad


def main():
    path, per = sys.argv[1], int(sys.argv[2]) if len(sys.argv) > 2 else 12
    r = random.Random(int(sys.argv[3]) if len(sys.argv) > 3 else 1)
    module = re.sub(r"_\d+\.ndjson$", "", os.path.basename(path))
    cases = [json.loads(l) for l in open(path)]
    cases = [c for c in cases if len(json.dumps(c)) < 60000] or cases
    where = {}
    for ci, c in enumerate(cases):
        for ei, e in enumerate(c["ev"]):
            for k, v in e.items():
                if k == "op":
                    continue
                if k == "err":
                    if v == "":
                        where.setdefault((e["op"], k), []).append((ci, ei, ()))
                    continue
                ls = [p for p, x in leaves(v) if altered(x, r) is not None]
                if ls:
                    where.setdefault((e["op"], k), []).append((ci, ei, ls))
        for k, v in c.items():
            if k in ("tag", "ev"):
                continue
            ls = [p for p, x in leaves(v) if altered(x, r) is not None]
            if ls:
                where.setdefault(("(case)", k), []).append((ci, None, ls))
    out, keys = [], []
    for key in sorted(where):
        for ci, ei, ls in r.sample(where[key], min(per, len(where[key]))):
            c = copy.deepcopy(cases[ci])
            if ei is not None:
                c["ev"] = c["ev"][:ei + 3]
            box, k = (c if ei is None else c["ev"][ei]), key[1]
            if k == "err":
                box[k] = "ValueError"
            else:
                p = r.choice(ls)
                for q in p:
                    box, k = box[k], q
                box[k] = altered(box[k], r)
            out.append(c)
            keys.append(key)
    bad = judge(module, out)
    for key in sorted(where):
        n = [i for i, k in enumerate(keys) if k == key]
        b = [i for i in n if i in bad]
        print("%-14s %-12s %3d of %3d rejected%s" % (key[0], key[1], len(b), len(n), "" if b else "   <- never"))


main()
