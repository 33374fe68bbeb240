"""C34: scores belong to their chips and classes, and a network is trained with the layers, weights and pictures asked for."""
import os

import numpy as np

import kerasless as K
from vf import enc, guard, num

K.install()
from resippy.image_recognition.neural_net_model_scoring import keras_image_scoring as S      # noqa: E402
from resippy.image_recognition.neural_net_model_training import keras_model_training as T    # noqa: E402

ASSUMPTIONS = ["keras, tensorflow and scipy.misc.imresize are stand-ins that record what they are given and do no learning",
               "chips no larger than the image; shares of overlap exact in binary; a chip of one value has no min-max normalisation",
               "chips shown at their own size hold the image's bytes; resized chips are judged by size and range"]


class Net:
    """A trained network: answers depend on every value shown."""
    def __init__(self, r, n):
        self.n, self.shown, self.answers, self.shsh = n, [], [], []
        self.w = [[r.uniform(-1, 1) for _ in range(7)] for _ in range(n)]

    def predict(self, x, *a, **k):
        x = np.asarray(x)
        out = []
        for chip in x:
            v = chip.ravel().astype(float)
            self.shown.append([num(z) for z in v.tolist()])
            self.shsh.append(list(chip.shape))
            ans = np.array([float(sum(w[j % 7] * z * (1 + j) for j, z in enumerate(v.tolist()))) for w in self.w], dtype="float32")
            self.answers.append([num(z) for z in ans.tolist()])
            out.append(ans)
        return np.array(out)


class Ledger:
    def __init__(self):
        self.told = []

    def set_status(self, what, share):
        self.told.append(num(float(share)))


def score(ctx, i):
    r = ctx.rng
    ny, nx = r.randint(1, 9), r.randint(1, 9)
    nb = r.choice([3, 4])
    a = np.array([r.choice([r.randint(0, 255), r.randint(0, 3), 255]) for _ in range(ny * nx * nb)], dtype="uint8").reshape(ny, nx, nb)
    if r.random() < .3:
        a[: (ny + 1) // 2] = r.randint(0, 255)
    if r.random() < .2:
        a = np.asfortranarray(a)
    cy, cx = r.randint(1, ny), r.randint(1, nx)
    if i % 7 == 0:
        cy, cx = ny, nx                                           # one chip only
    if i % 3:
        ty, tx = cy, cx
    else:
        ty, tx = r.randint(1, 8), r.randint(1, 8)
    ov = [r.choice([0, .25, .5, .75]), r.choice([0, .25, .5, .75])]
    how = r.choice(["divide_by_255", "min_max_per_chip", "none"])
    n = 1 if r.random() < .2 else r.randint(2, 4)
    labels = r.sample(["tree", "car", "sea", "house", "road"], n)
    find = r.choice(labels)
    net, led = Net(r, n), Ledger()
    kw = {"target_chip_size_x": tx, "target_chip_size_y": ty}
    if ov != [.5, .5] or r.random() < .5:
        kw.update(image_overlap_y_percent=ov[0], image_overlap_x_percent=ov[1])
    if how != "divide_by_255" or r.random() < .5:
        kw["normalize_method"] = how
    want = r.choice(["both", "labels", "neither"])
    if want != "neither":
        kw["labels"] = labels
    if want == "both":
        kw["thing_to_find"] = find
    if r.random() < .5:
        kw["atk_chain_ledger"] = led
    case = ctx.case("score-%d" % i, kind="score", img=[int(v) for v in a.ravel().tolist()], ny=ny, nx=nx, nb=nb)
    keep = a.copy()
    with np.errstate(all="ignore"):
        res, err = guard(S.chip_and_score_image, a, net, cx, cy, **kw)
    rr, rsh, ul, raw = [], [], [], []
    if not err:
        try:
            s, ul = res
            s = np.asarray(s)
            rr, rsh, ul = [num(v) for v in s.ravel().tolist()], list(s.shape), [[int(y), int(x)] for y, x in ul]
            raw = [[int(v) for v in K.imresize(a[y:y + cy, x:x + cx, :3], (ty, tx)).ravel().tolist()] for y, x in ul]
        except Exception:
            err = "unreadable-result"
    case.ev("score", err=err, r=rr, rsh=rsh, ul=ul, cs=[cy, cx], ts=[ty, tx], ov=[num(v) for v in ov], how=how, shown=net.shown, raw=raw,
            shsh=net.shsh, answers=net.answers, labels=labels, find=[find] if want == "both" else [], same=bool(np.array_equal(a, keep)), told=led.told)


def usual(ctx, i):
    """The size chips are shown at, and the share they overlap, when none is asked for."""
    r = ctx.rng
    ny, nx = r.randint(2, 12), r.randint(2, 12)
    a = np.full((ny, nx, 3), 7, dtype="uint8")
    cy, cx = r.randint(1, ny), r.randint(1, nx)
    kw, ts = {}, [224, 224]
    if i % 3 == 1:
        ts[1] = kw["target_chip_size_x"] = r.randint(1, 9)
    if i % 3 == 2:
        ts[0] = kw["target_chip_size_y"] = r.randint(1, 9)
    seen = []

    class Any:
        def predict(self, x, *a, **k):
            seen.append(list(np.asarray(x).shape))
            return np.zeros((len(x), 2), dtype="float32")
    case = ctx.case("usual-%d" % i, kind="usual", ny=ny, nx=nx)
    res, err = guard(lambda: [[int(y), int(x)] for y, x in S.chip_and_score_image(a, Any(), cx, cy, **kw)[1]])
    case.ev("usual", err=err, cs=[cy, cx], ts=ts, seen=seen, ul=res or [])


def flags(body):
    return [bool(v.trainable) for v in body.layers]


def last_first(t):
    out = []
    while isinstance(t, K.Tensor) and t.layer is not None and t.layer.kind != "conv":
        out.append(t)
        t = t.source
    return out[::-1], t


def session(ctx, i, ops):
    r = ctx.rng
    n = r.randint(1, 4)
    body = K.Body(n)
    d = os.path.join(ctx.scratch, "s%d" % i)
    os.makedirs(d)
    case = ctx.case("train-%d" % i, kind="train", layers=n)
    top = None
    for j, op in enumerate(ops):
        words = op.split()
        if op == "freeze":
            _, err = guard(T.freeze_model_layers, body)
            case.ev(op, err=err, body=flags(body))
        elif op == "unfreeze":
            _, err = guard(T.unfreeze_model_layers, body)
            case.ev(op, err=err, body=flags(body))
        elif op == "top":
            classes, drop, dense = r.randint(1, 9), r.choice([.2, .5, .1]), r.choice([128, 64, 7])
            kw = {}
            if drop != .2 or r.random() < .5:
                kw["dropout"] = drop
            if dense != 128 or r.random() < .5:
                kw["dense_connections"] = dense
            top, err = guard(T.create_final_dense_softmax_layer, body, classes, **kw)
            made, on = last_first(top)
            case.ev(op, err=err, body=flags(body), classes=classes, dropout=num(drop), dense=dense, whole=bool(made) and made[-1] is top, on_body=on is body.output,
                    made=[{"k": t.layer.kind, "n": num(t.layer.d.get("units", t.layer.d.get("rate", 0))), "act": str(t.layer.d.get("activation", ""))} for t in made])
        else:
            train(ctx, case, "%d-%d" % (i, j), body, top if "top" in words else None, words[-1], d)


def train(ctx, case, tag, body, top, w, d):
    r = ctx.rng
    names = r.sample(["tree", "car", "sea", "house", "road", "Zoo", "10", "9"], r.randint(1, 5))
    if r.random() < .6:
        names.sort()                                               # the order of pictures read from a folder
    out = os.path.join(d, "out" + tag)
    gens = []
    for k in range(2):
        g = K.Pictures(None, {"batch_size": r.randint(1, 12)})
        g.filenames = ["f%d" % z for z in range(r.randint(1, 60))]
        g.class_indices = {n: z for z, n in enumerate(names)}
        if r.random() < .5:
            g.class_indices = dict(sorted(g.class_indices.items()))
        gens.append(g)
    kw, wfile, epochs = {}, "trained_model.h5", 20
    comp = ["categorical_crossentropy", "adam", ["accuracy"]]
    if r.random() < .5:
        wfile = kw["model_output_fname"] = r.choice(["m.h5", "net.hdf5"])
    if r.random() < .5:
        epochs = kw["n_epochs"] = r.randint(1, 50)
    if r.random() < .5:
        comp[0] = kw["loss"] = r.choice(["mse", "binary_crossentropy"])
    if r.random() < .5:
        comp[1] = "sgd"
        kw["optimizer"] = K.Recorder("sgd")
    if r.random() < .5:
        comp[2] = kw["metrics"] = r.choice([["mae"], ["accuracy", "mae"]])
    if top is not None:
        kw["final_model_layers"] = top
    if w != "none":
        kw["model_weights_file"] = w
    K.Network.log = []
    _, err = guard(T.train_model, body, gens[0], gens[1], out, **kw)
    log = K.Network.log
    fits = [z for z in log if z[0] == "fit"]
    f = {}
    labels, kept, of, got = [], ["", False, ""], "", []
    try:
        net, f = fits[-1][1], fits[-1][2]
        of = "body" if net is body else "body and top" if net.body is body and top is not None and net.top is top else "other"
        got = [{id(gens[0]): "training", id(gens[1]): "validation"}.get(id(f.get(k)), "?") for k in ("generator", "validation_data")]
        c = [z[2] for z in log if z[0] == "compile" and z[1] is net][-1]
        comp_got = [str(c.get("loss")), getattr(c.get("optimizer"), "kind", "?"), list(c.get("metrics"))]
        for cb in f.get("callbacks") or []:
            if cb.kind == "keep":
                q = K._args(["filepath", "monitor", "verbose", "save_best_only"], cb.a, cb.k)
                kept = [os.path.relpath(q["filepath"], out), bool(q.get("save_best_only")), str(q.get("monitor"))]
        with open(os.path.join(out, "labels.txt")) as h:
            labels = h.read().splitlines()
    except Exception:
        err = err or "unreadable-result"
        comp_got = []
    case.ev("train", err=err, useTop=top is not None, w=w, fits=len(fits), of=of, compiled=bool(f.get("_compiled")), weights=str(f.get("_weights")), body=flags(body),
            epochs=int(f.get("epochs", 0) or 0), wepochs=epochs, steps=num(float(f.get("steps_per_epoch", 0) or 0)), vsteps=num(float(f.get("validation_steps", 0) or 0)),
            n=[len(g.filenames) for g in gens], batch=[g.batch_size for g in gens], given=got, comp=comp_got, wcomp=comp, kept=kept, wfile=wfile,
            labels=labels, classes=[{"name": n, "at": z} for n, z in gens[0].class_indices.items()])


def pictures(ctx, i):
    r = ctx.rng
    d = os.path.join(ctx.scratch, "p%d" % i)
    names = r.sample(["tree", "car", "sea", "house", "road"], r.randint(1, 4))
    for k in ("t", "v"):
        for n in names:
            os.makedirs(os.path.join(d, k, n))
    size, batch, scale, fl = r.randint(8, 300), 10, 1.0 / 255, [False, False]
    kw = {}
    if r.random() < .6:
        batch = kw["batchsize"] = r.randint(1, 40)
    if r.random() < .6:
        scale = kw["rescale"] = r.choice([1.0, .5, 1 / 4095.])
    if r.random() < .5:
        fl[0] = kw["horizontal_flip"] = True
    if r.random() < .5:
        fl[1] = kw["vertical_flip"] = True
    case = ctx.case("pictures-%d" % i, kind="pictures")
    res, err = guard(T.setup_train_and_val_image_generators, size, os.path.join(d, "t"), os.path.join(d, "v"), **kw)
    e = dict(dirs=[], scale=[], size=[], batch=[], mode=[], flips=[], idx=[])
    try:
        for g in res:
            e["dirs"].append(os.path.relpath(g.d["directory"], d))
            e["scale"].append(num(float(g.gen.k.get("rescale"))))
            e["size"].append([int(v) for v in g.d["target_size"]])
            e["batch"].append(int(g.d.get("batch_size", 32)))
            e["mode"].append(str(g.d.get("class_mode", "categorical")))
            e["flips"].append([bool(g.gen.k.get("horizontal_flip", False)), bool(g.gen.k.get("vertical_flip", False))])
        ci = T.get_class_indices(res[0])
        e["idx"] = sorted([[k, int(v)] for k, v in ci.items()])
    except Exception:
        err = err or "unreadable-result"
    case.ev("pictures", err=err, wdirs=["t", "v"], wscale=num(scale), wsize=size, wbatch=batch, wflips=fl, widx=[[n, k] for k, n in enumerate(sorted(names))], **e)


def run(ctx):
    beh = ctx.mc("Scoring_MC", what="chips shown one by one over every grid; training sessions of three steps")
    for i in range(ctx.n(150, 900)):
        score(ctx, i)
    for i in range(ctx.n(18, 90)):
        usual(ctx, i)
    for i, b in enumerate(ctx.rng.sample(beh, min(len(beh), ctx.n(120, 276)))):
        session(ctx, i, b["ops"])
    for i in range(ctx.n(20, 80)):
        pictures(ctx, i)
    ctx.judge("Scoring_Trace")
