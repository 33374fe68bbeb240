"""C35: an answer depends on the state last given to the object asked, the question and its arguments, and on nothing else."""
import copy
import json
import os
import random
import shutil
import signal

import numpy as np

import askers
from vf import guard

ASSUMPTIONS = ["objects of the kinds of harness/askers.py", "answers compared by their texts and up to 24 numbers per array", "the reference of a state is an object made in it",
               "arrays handed out as computed answers may be overwritten by their receiver; arrays a holder stores are copied first"]


class Buffers:
    """Arguments: fresh copies, or the same arrays filled again."""
    def __init__(self, again):
        self.again, self.kept = again, {}

    def fill(self, q, args):
        out = []
        for i, v in enumerate(args):
            if isinstance(v, list) or (isinstance(v, np.ndarray) and not self.again):
                v = copy.deepcopy(v)
            elif isinstance(v, np.ndarray):
                b = self.kept.setdefault((q, i, v.shape, v.dtype.str), np.empty_like(v))
                b[...] = v
                v = b
            out.append(v)
        return out


def same(a, b):
    if isinstance(a, np.ndarray):
        return isinstance(b, np.ndarray) and a.shape == b.shape and a.dtype == b.dtype and bool(np.array_equal(a, b))
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(same(p, q) for p, q in zip(a, b))
    return a is b or not isinstance(a, (int, float, str)) or a == b


def reference(kind, seed, scratch, s, q, a):
    """The answer of an object made in state s, in a process of its own."""
    os.makedirs(scratch)
    k = askers.KINDS[kind](seed, scratch)
    return askers.answer(k.qs[q][1], k.make(s), Buffers(False).fill(q, k.qs[q][2][a]))


def how_many(kind, seed, scratch):
    os.makedirs(scratch)
    return "", [len(askers.KINDS[kind](seed, scratch).qs)], ""


def play(plays):
    """Histories of several kinds, one after the other in this process."""
    out = []
    for i, kind, seed, scratch, qmap, pick in plays:
        r = random.Random("%s %s" % (seed, qmap))
        os.makedirs(scratch)
        k = askers.KINDS[kind](seed, scratch)
        for n, b in enumerate(pick):
            flip, events = r.random() < .5, Events()
            replay(events, r, b["h"], k, qmap, {1: 1, 2: 0} if flip else {1: 0, 2: 1})
            out.append((i, n, flip, events))
        shutil.rmtree(scratch, ignore_errors=True)
    return "", out, ""


def in_children(fn, jobs, width=8, limit=60):
    """[(text, values, error) of fn(*job) for each job]: by children that were asked nothing before."""
    out = []
    for i in range(0, len(jobs), width):
        kids = []
        for j in jobs[i:i + width]:
            rd, wr = os.pipe()
            pid = os.fork()
            if pid == 0:
                try:
                    os.close(rd)
                    signal.alarm(limit)
                    try:
                        r = fn(*j)
                    except Exception as x:
                        r = "", [], type(x).__name__
                    with os.fdopen(wr, "w") as f:
                        json.dump(r, f)
                finally:
                    os._exit(0)
            os.close(wr)
            kids.append((pid, rd))
        for pid, rd in kids:
            with os.fdopen(rd) as f:
                text = f.read()
            os.waitpid(pid, 0)
            out.append(tuple(json.loads(text)) if text else ("", [], "no-answer"))
    return out


class Events(list):
    def ev(self, op, **f):
        self.append(dict(f, op=op))


def replay(case, r, beh, k, qmap, amap):
    obj, buf = {}, Buffers(r.random() < .5)
    spoil = r.random() < .6
    for e in beh:
        o, s = e["o"], e["s"]
        if e["op"] == "make" or (e["op"] == "move" and k.move is None):
            obj[o] = None
            obj[o], err = guard(k.make, s)
            case.ev(e["op"], err=err, o=o, s=s)
        elif e["op"] == "move":
            moved, err = guard(k.move, obj[o], s)
            obj[o] = moved
            case.ev("move", err=err, o=o, s=s)
        else:
            q, a = qmap[e["q"]], amap[e["a"]]
            args = buf.fill(q, k.qs[q][2][a])
            before = copy.deepcopy([v if isinstance(v, (np.ndarray, list, tuple, int, float, str)) else None for v in args])
            kept = []

            def ask(ob, *p):
                kept.append(k.qs[q][1](ob, *p))
                return kept[0]
            t, v, err = askers.answer(ask, obj[o], args)
            ok = all(b is None or same(b, p) for b, p in zip(before, args))
            case.ev("ask", err=err, o=o, s=0, q=e["q"], a=e["a"], t=t, v=v, same=ok, name=k.qs[q][0])
            if spoil:
                askers.scribble(kept)
                askers.scribble([p for p in args if isinstance(p, np.ndarray)])


def run(ctx):
    r = ctx.rng
    short = ctx.mc("Answers_MC", what="histories of two objects given states and asked questions: each way of answering from what was asked before is given away by some of them")
    long = ctx.mc("Answers_MC", "Answers_Sim", what="longer histories that give away seven of the eight ways", simulate=100, depth=20)
    rounds = []
    kinds = [(kind, "%s-%s-%d-%d" % (ctx.seed, kind, j, r.randrange(10 ** 6))) for kind in askers.KINDS for j in range(ctx.n(1, 4))]
    counts = in_children(how_many, [(kind, seed, os.path.join(ctx.scratch, "count" + seed)) for kind, seed in kinds])
    for (kind, seed), (_, n, err) in zip(kinds, counts):
        if err:
            ctx.case("%s not made" % kind).ev("make", err=err, o=1, s=1)
            continue
        qs = list(range(n[0]))
        r.shuffle(qs)
        if len(qs) % 2:
            qs.append(qs[0])
        rounds += [(kind, seed, qs[i], qs[i + 1]) for i in range(0, len(qs), 2)]
    jobs = []
    for i, (kind, seed, q1, q2) in enumerate(rounds):
        for s in (1, 2):
            for q in (q1, q2):
                for a in (0, 1):
                    jobs.append((kind, seed, os.path.join(ctx.scratch, "ref%d-%d%d%d" % (i, s, q, a)), s, q, a))
    answers = in_children(reference, jobs)
    plays = []
    for i, (kind, seed, q1, q2) in enumerate(rounds):
        pick = r.sample(short, min(len(short), ctx.n(6, 30))) + r.sample(long, min(len(long), ctx.n(6, 30)))
        plays.append((i, kind, seed, os.path.join(ctx.scratch, "play%d" % i), {1: q1, 2: q2}, pick))
    done = in_children(play, [(plays[j::8],) for j in range(8)], limit=600)
    for j, (_, out, err) in enumerate(done):
        if err:
            ctx.case("histories not played").ev("make", err=err, o=1, s=1)
        for i, n, flip, events in out:
            ref = zip([(s, q, a) for s in (1, 2) for q in (1, 2) for a in (1, 2)], answers[8 * i:8 * i + 8])
            case = ctx.case("%s %d.%d" % (rounds[i][0], i, n), f=sorted(plays[i][5][n]["f"]))
            for (s, q, a), (t, v, err) in ref:
                case.ev("ref", err=err, s=s, q=q, a=3 - a if flip else a, t=t, v=v)
            for e in events:
                case.ev(**e)
    ctx.judge("Answers_Trace")
