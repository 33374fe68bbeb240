"""Recording, judging and reporting shared by every check.

A check module defines  run(ctx).  It drives the real code, records one event per public call with
ctx.case(...).ev(...), and calls ctx.judge(module) to have TLC decide every event against the specification.
Nothing here or in the check modules decides a property: the clauses are in spec/*.tla.
"""
import contextlib
import io
import json
import math
import os
import random
import shutil
import sys
import tempfile
import time

import numpy as np

import tlc

VERIF = tlc.VERIF
REPO = os.environ.get("VF_REPO", "/repo")
if REPO not in sys.path:
    sys.path.insert(0, REPO)

I31 = 2 ** 31 - 1


class MachineryError(Exception):
    """The check itself could not run (not a verdict)."""


def num(x):
    """An exact TLA+ number for a Python/numpy number: int, "n" or "n/d"; nan/inf as strings."""
    if isinstance(x, (bool, np.bool_)):
        return bool(x)
    if isinstance(x, (int, np.integer)):
        x = int(x)
        return x if -I31 <= x <= I31 else str(x)
    if isinstance(x, (float, np.floating)):
        x = float(x)
        if math.isnan(x):
            return "nan"
        if math.isinf(x):
            return "inf" if x > 0 else "-inf"
        n, d = x.as_integer_ratio()
        if d == 1:
            return n if -I31 <= n <= I31 else str(n)
        return "%d/%d" % (n, d)
    raise TypeError(type(x))


def enc(x):
    """Project a Python value to JSON for the specification.  Total: unknown values become tagged strings."""
    if x is None:
        return "None"
    if isinstance(x, str):
        return x
    if isinstance(x, (bool, np.bool_, int, np.integer, float, np.floating)):
        return num(x)
    if isinstance(x, np.ndarray):
        if x.dtype.kind in "biuf":
            return enc(x.tolist()) if x.ndim else num(x.item())
        if x.dtype.kind == "c":
            return [enc(x.real), enc(x.imag)]
        return "ndarray:" + str(x.dtype)
    if isinstance(x, dict):
        return {str(k): enc(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [enc(v) for v in x]
    return "<" + type(x).__name__ + ">"


def obs(x):
    """Observation of a numeric result: shape, dtype name and flattened values, or what it was instead."""
    if x is None:
        return {"k": "None", "sh": [], "dt": "", "v": []}
    try:
        a = np.asarray(x)
        kind = "a" if isinstance(x, np.ndarray) and x.ndim > 0 else "s"
        if isinstance(x, (list, tuple)):
            kind = "a"
        if a.dtype.kind in "biuf":
            return {"k": kind, "sh": list(a.shape), "dt": str(a.dtype), "v": [num(v) for v in a.ravel().tolist()]}
        if a.dtype.kind == "c":
            v = []
            for z in a.ravel().tolist():
                v += [num(z.real), num(z.imag)]
            return {"k": kind, "sh": list(a.shape), "dt": str(a.dtype), "v": v}
    except Exception:
        pass
    return {"k": "<" + type(x).__name__ + ">", "sh": [], "dt": "", "v": []}


NOOBS = {"k": "err", "sh": [], "dt": "", "v": []}


class Case:
    def __init__(self, tag, const):
        self.d = {"tag": tag}
        self.d.update(const)
        self.d["ev"] = []

    def ev(self, op, **f):
        e = {"op": op}
        e.update(f)
        self.d["ev"].append(e)
        return e


def guard(fn, *a, **k):
    """Call the code under test; returns (result, "") or (None, exception name)."""
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            return fn(*a, **k), ""
    except Exception as x:          # the error path is an observation too
        return None, type(x).__name__


class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.thorough = tier == "thorough"
        self.rng = random.Random("%s/%d/%s" % (prop, seed, tier))
        self.np = np.random.RandomState(self.rng.randrange(2 ** 31))
        self.scratch = tempfile.mkdtemp(prefix="vf_%s_" % prop)
        self.cases = []
        self.states = self.transitions = 0
        self.judged = self.events = 0
        self.behaviours = 0
        self.mc_runs = []
        self.judge_runs = []
        self.seen = {}
        self.fails = []
        self.samples = []
        self.notes = {}
        self.t0 = time.time()

    # ---- sizes
    def n(self, quick, thorough):
        return thorough if self.thorough else quick

    # ---- specification side
    def mc(self, module, cfg=None, what="", simulate=None, depth=None, workers=4, env=None, seed=None):
        """Model check (or simulate) a specification; an error here is a defect of the specification."""
        if simulate is not None and seed is None:
            seed = self.seed
        r = tlc.run(module, cfg, env=env, workers=workers, simulate=simulate, depth=depth, seed=seed)
        if r.error or r.rc != 0:
            raise MachineryError("TLC on %s/%s: %s" % (module, cfg, r.error or r.out[-2000:]))
        self.states += r.states
        self.transitions += r.transitions
        beh = sorted(r.emitted.get("@@BEH", []), key=json.dumps)     # TLC's workers emit in any order
        self.behaviours += len(beh)
        self.mc_runs.append({"module": module, "cfg": cfg or module, "what": what, "states": r.states,
                             "transitions": r.transitions, "behaviours_emitted": len(beh),
                             "mode": "simulate" if simulate else "exhaustive", "wall_s": round(r.wall, 2)})
        return beh

    # ---- implementation side
    def case(self, tag, **const):
        c = Case(tag, const)
        self.cases.append(c)
        return c

    def judge(self, module, cfg=None, workers=6):
        """Have TLC judge all cases recorded since the last call against spec/<module>.tla."""
        cases, self.cases = self.cases, []
        if not cases:
            raise MachineryError("no cases recorded for " + module)
        path = os.path.join(self.scratch, "%s_%d.ndjson" % (module, len(self.judge_runs)))
        with open(path, "w") as f:
            for c in cases:
                f.write(json.dumps(c.d) + "\n")
        keep = os.environ.get("VF_KEEP")
        if keep:
            shutil.copy(path, keep)
        r = tlc.run(module, cfg, env={"VF_TRACE": path}, workers=workers, heap="6g")
        self.states += r.states
        self.transitions += r.transitions
        ends = r.emitted.get("@@END", [])
        for e in ends:
            for k in e["seen"]:
                self.seen[k] = self.seen.get(k, 0) + 1
        for f in sorted(r.emitted.get("@@FAIL", []), key=lambda z: (z["c"], z["l"])):
            c = cases[f["c"] - 1].d
            self.fails.append({"module": module, "tag": c["tag"], "event": f["l"], "op": f["op"],
                               "clauses": sorted(f["bad"]), "case": c})
        if r.error or len(ends) != len(cases):
            # An event the specification cannot even evaluate: outside its domain.  On an unchanged tree every
            # recorded event is inside it, so name the event as the violation.
            m = None
            import re
            cs = re.findall(r"/\\ jcase = (\d+)", r.out)
            ls = re.findall(r"/\\ jpos = (\d+)", r.out)
            if r.error and cs:
                m = (int(cs[-1]), int(ls[-1]) if ls else 1)
            if m is None and not self.fails:
                raise MachineryError("TLC judging %s: %s" % (module, (r.error or "incomplete run") + r.out[-1500:]))
            if m is not None:
                c = cases[m[0] - 1].d
                op = c["ev"][min(m[1], len(c["ev"])) - 1]["op"] if c["ev"] else "init"
                self.fails.append({"module": module, "tag": c["tag"], "event": m[1], "op": op,
                                   "clauses": ["outside-the-specified-domain"], "case": c,
                                   "tlc": (r.error or "")[:1500]})
        self.judged += len(cases)
        n = sum(len(c.d["ev"]) for c in cases)
        self.events += n
        self.judge_runs.append({"module": module, "cases": len(cases), "events": n, "states": r.states,
                                "wall_s": round(r.wall, 2)})
        for c in cases[:1] + cases[-1:]:
            if len(self.samples) < 4:
                s = json.dumps(c.d)
                self.samples.append(c.d if len(s) < 1500 else s[:1500] + " ...")
        return [f for f in self.fails]

    def cleanup(self):
        shutil.rmtree(self.scratch, ignore_errors=True)


def known_findings():
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return [k for k in json.load(f) if k.get("status") == "finding"]


def is_known(k, f):
    return (f["op"] == k["op"] and f["tag"] == k["tag"] and set(f["clauses"]) <= set(k["clauses"]))


def finish(ctx, level="model_checking", assumptions=()):
    """Write evidence, print the verdict, return the exit code."""
    known = [k for k in known_findings() if k["property"] == ctx.prop]
    new, listed = [], {}
    for f in ctx.fails:
        hit = [k for k in known if is_known(k, f)]
        if hit:
            listed[hit[0]["id"]] = hit[0]
        else:
            new.append(f)
    ev = {
        "property": ctx.prop, "tier": ctx.tier, "seed": ctx.seed, "level": level,
        "coverage": {
            "states": ctx.states, "transitions": ctx.transitions,
            "traces_validated_against_impl": ctx.judged, "events_judged": ctx.events,
            "spec_behaviours_emitted": ctx.behaviours,
            "clauses_evaluated_in_cases": ctx.seen,
            "model_runs": ctx.mc_runs, "judge_runs": ctx.judge_runs,
            "samples": ctx.samples,
        },
        "assumptions": list(assumptions),
        "wall_s": round(time.time() - ctx.t0, 2),
        "violations": len(new),
    }
    ev["coverage"].update(ctx.notes)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", ctx.prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for k in listed.values():
        print("KNOWN-FINDING: property=%s %s" % (ctx.prop, k["what"]))
    if not new:
        print("OK property=%s cases=%d events=%d states=%d clauses=%d wall=%.1fs" % (
            ctx.prop, ctx.judged, ctx.events, ctx.states, len(ctx.seen), time.time() - ctx.t0))
        return 0
    rep = os.path.join(VERIF, "evidence", "replay_%s.json" % ctx.prop)
    with open(rep, "w") as f:
        json.dump({"property": ctx.prop, "seed": ctx.seed, "tier": ctx.tier, "failures": new[:20],
                   "failing_cases": len(new)}, f, indent=1)
    for x in new[:6]:
        print("rejected: case %s event %d (%s): %s" % (x["tag"], x["event"], x["op"], ", ".join(x["clauses"])))
    print("VIOLATION property=%s replay=%s" % (ctx.prop, rep))
    return 1
