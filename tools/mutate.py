"""Systematic mutation of the code under test, to find behaviour the checks do not hold.

usage: mutate.py COVDIR OUT N SEED [WORKERS]

COVDIR/<check>/*.txt list the lines ("file line") each quick check runs.  Draws N mutants over the covered lines, applies each
in a scratch copy of /repo, and runs the quick checks that reach the line until one reports a violation.  Writes one JSON line
per mutant to OUT; survivors are for reading: equivalent, outside what a property promises, or a gap.
"""
import ast
import glob
import json
import os
import random
import re
import shutil
import subprocess
import sys
import time
from concurrent.futures import ThreadPoolExecutor
import queue

REPO, VERIF = "/repo", os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def coverage(d):
    cov = {}
    for c in sorted(os.listdir(d)):
        if not os.path.isdir(os.path.join(d, c)):
            continue
        for f in glob.glob(os.path.join(d, c, "*.txt")):
            for l in open(f):
                p, n = l.rsplit(" ", 1)
                p = os.path.realpath(p)
                cov.setdefault((p, int(n)), set()).add(c)
    return cov


def docstrings(tree):
    out = set()
    for n in ast.walk(tree):
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant) and isinstance(n.value.value, str):
            out.add(n.lineno)
    return out


def mutants(path):
    src = open(path).read()
    tree = ast.parse(src)
    lines = src.split("\n")
    start = [0]
    for l in lines:
        start.append(start[-1] + len(l.encode()) + 1)
    b = src.encode()
    out = []

    def span(n):
        return start[n.lineno - 1] + n.col_offset, start[n.end_lineno - 1] + n.end_col_offset

    def put(n, i, j, new, what):
        out.append((n.lineno, i, j, new.encode(), what))

    def seg(n):
        i, j = span(n)
        return b[i:j].decode()

    def between(n, a, c, table):
        i, j = span(a)[1], span(c)[0]
        t = b[i:j].decode()
        for k, v in table:
            m = re.search(re.escape(k), t)
            if m:
                put(n, i + m.start(), i + m.end(), v, "%s -> %s" % (k, v))
                return
    skip = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            body = n.body
            if isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant):
                skip.add(body[0].value)
    for n in ast.walk(tree):
        if n in skip:
            continue
        if isinstance(n, ast.BinOp):
            table = {ast.Add: [("+", "-")], ast.Sub: [("-", "+")], ast.Mult: [("*", "/")], ast.Div: [("/", "*")], ast.FloorDiv: [("//", "/")], ast.Mod: [("%", "*")], ast.Pow: [("**", "*")]}.get(type(n.op))
            if table and not (isinstance(n.op, (ast.Add, ast.Mod)) and isinstance(n.left, ast.Constant) and isinstance(n.left.value, str)):
                between(n, n.left, n.right, table)
        elif isinstance(n, ast.Compare) and len(n.ops) == 1:
            table = {ast.Lt: [("<", "<=")], ast.LtE: [("<=", "<")], ast.Gt: [(">", ">=")], ast.GtE: [(">=", ">")], ast.Eq: [("==", "!=")], ast.NotEq: [("!=", "==")],
                     ast.Is: [("is", "is not")], ast.IsNot: [("is not", "is")], ast.In: [("in", "not in")], ast.NotIn: [("not in", "in")]}[type(n.ops[0])]
            between(n, n.left, n.comparators[0], table)
        elif isinstance(n, ast.BoolOp):
            between(n, n.values[0], n.values[1], [("and", "or")] if isinstance(n.op, ast.And) else [("or", "and")])
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Not, ast.USub)):
            i, j = span(n)
            put(n, i, j, seg(n.operand), "drop " + ("not" if isinstance(n.op, ast.Not) else "minus"))
        elif isinstance(n, ast.Constant):
            i, j = span(n)
            v = n.value
            if v is True or v is False:
                put(n, i, j, str(not v), "%s -> %s" % (v, not v))
            elif isinstance(v, int):
                put(n, i, j, str(v + 1), "%d -> %d" % (v, v + 1))
            elif isinstance(v, float):
                put(n, i, j, repr(v * 1.02 if v else .02), "%r * 1.02" % v)
            elif isinstance(v, str) and v and n.lineno == n.end_lineno and not seg(n).startswith(("'''", '"""')):
                put(n, i, j, repr(v + "_"), "%r + _" % v)
        elif isinstance(n, (ast.Expr, ast.Assign, ast.AugAssign)) and not isinstance(getattr(n, "value", None), ast.Constant):
            i, j = span(n)
            if isinstance(n, ast.Assign) and not isinstance(n.targets[0], (ast.Attribute, ast.Subscript)):
                continue
            put(n, i, j, "pass", "drop: " + seg(n).split("\n")[0][:70])
        elif isinstance(n, ast.If):
            i, j = span(n.test)
            put(n, i, j, "True", "if True")
            put(n, i, j, "False", "if False")
        elif isinstance(n, ast.Call) and len(n.args) >= 2 and not any(isinstance(a, ast.Starred) for a in n.args):
            (i, j), (k, l) = span(n.args[0]), span(n.args[1])
            a, c = b[i:j].decode(), b[k:l].decode()
            if a != c:
                put(n, i, l, c + b[j:k].decode() + a, "swap (%s, %s)" % (a[:25], c[:25]))
        elif isinstance(n, ast.Tuple) and len(n.elts) == 2 and isinstance(n.ctx, ast.Load):
            (i, j), (k, l) = span(n.elts[0]), span(n.elts[1])
            a, c = b[i:j].decode(), b[k:l].decode()
            if a != c:
                put(n, i, l, c + b[j:k].decode() + a, "swap tuple (%s, %s)" % (a[:25], c[:25]))
    ok = []
    for ln, i, j, new, what in out:
        t = b[:i] + new + b[j:]
        try:
            ast.parse(t)
        except SyntaxError:
            continue
        ok.append((ln, what, t))
    return ok


def main():
    covdir, out, n, seed = sys.argv[1], sys.argv[2], int(sys.argv[3]), int(sys.argv[4])
    workers = int(sys.argv[5]) if len(sys.argv) > 5 else 2
    cov = coverage(covdir)
    anchors, wall = {}, {}
    for l in open(os.path.join(VERIF, "properties.jsonl")):
        p = json.loads(l)
        for f in p["anchors"]["files"]:
            anchors.setdefault(os.path.join(REPO, f), []).append(p["id"])
    for f in glob.glob(os.path.join(covdir, "*.log")):
        m = re.search(r"wall=([\d.]+)", open(f).read())
        wall[os.path.basename(f)[:-4]] = float(m.group(1)) if m else 60.
    pool = []
    for p in sorted({f for f, _ in cov}):
        if p.startswith(REPO):
            for ln, what, t in mutants(p):
                cs = cov.get((p, ln))
                if cs:
                    pool.append((p, ln, what, t, cs))
    r = random.Random(seed)
    done = set()
    for f in glob.glob(os.path.join(os.path.dirname(os.path.abspath(out)), "mut_*.jsonl")):
        for l in open(f):
            d = json.loads(l)
            done.add((d["file"], d["line"], d["what"]))
    pool = [m for m in pool if (m[0][len(REPO) + 1:], m[1], m[2]) not in done]
    print("%d mutants on covered lines" % len(pool))
    # the same share for every function-sized neighbourhood rather than for long files only
    by = {}
    for m in pool:
        by.setdefault((m[0], m[1] // 12), []).append(m)
    keys = sorted(by)
    picked = []
    while len(picked) < n and keys:
        r.shuffle(keys)
        for k in list(keys):
            if by[k]:
                picked.append(by[k].pop(r.randrange(len(by[k]))))
            else:
                keys.remove(k)
            if len(picked) >= n:
                break
    q = queue.Queue()
    for k in range(workers):
        d = "/tmp/mutw/%d_%d" % (seed, k)
        if os.path.isdir(d):
            shutil.rmtree(d)
        os.makedirs(d)
        subprocess.run(["cp", "-a", REPO, d + "/repo"], check=True)
        subprocess.run(["cp", "-a", VERIF, d + "/verif"], check=True)
        q.put(d)

    def one(m):
        p, ln, what, t, cs = m
        d = q.get()
        try:
            rel = p[len(REPO) + 1:]
            tgt = os.path.join(d, "repo", rel)
            keep = open(tgt, "rb").read()
            open(tgt, "wb").write(t)
            first = [c for c in cs if c in anchors.get(p, [])]
            order = sorted(first, key=lambda c: wall.get(c, 60)) + sorted(set(cs) - set(first), key=lambda c: wall.get(c, 60))
            killed, odd, t0 = None, [], time.time()
            for c in order[:9]:
                env = dict(os.environ, VF_REPO=os.path.join(d, "repo"))
                try:
                    x = subprocess.run(["./check.sh", c, "quick"], cwd=os.path.join(d, "verif"), env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=400)
                    if x.returncode == 1:
                        killed = c
                        break
                    if x.returncode:
                        odd.append(c)
                except subprocess.TimeoutExpired:
                    odd.append(c + " timeout")
            open(tgt, "wb").write(keep)
            with open(out, "a") as f:
                f.write(json.dumps({"file": rel, "line": ln, "what": what, "text": open(p).read().split("\n")[ln - 1].strip(), "killed": killed, "odd": odd,
                                    "checks": order[:9], "s": round(time.time() - t0)}) + "\n")
        finally:
            q.put(d)
    with ThreadPoolExecutor(workers) as ex:
        list(ex.map(one, picked))


if __name__ == "__main__":
    main()
