"""Stand-ins for the packages image recognition is written against (keras, tensorflow, scipy.misc.imresize), which are not
installed here: they do no learning, they record what they are given."""
import sys
import types
import warnings

import numpy as np
from PIL import Image


def _args(names, a, k):
    d = dict(zip(names, a))
    d.update(k)
    return d


class Layer:
    def __init__(self, kind, *a, **k):
        self.kind, self.trainable, self.source = kind, True, None
        names = {"dense": ["units", "activation"], "drop": ["rate"], "pool": []}.get(kind, [])
        self.d = _args(names, a, k)

    def __call__(self, x):
        t = Tensor(self, x)
        return t


class Tensor:
    def __init__(self, layer, source):
        self.layer, self.source = layer, source


class Network:
    """A network: the layers of its body, and a classifier on top when built with one."""
    log = []

    def __init__(self, *a, **k):
        d = _args(["inputs", "outputs"], a, k)
        self.body, self.top = None, None
        if d:
            i, o = d.get("inputs", d.get("input")), d.get("outputs", d.get("output"))
            self.input, self.output = i, o
            self.body, self.top = i.source if isinstance(i, Tensor) else None, o
            self.layers = getattr(self.body, "layers", [])

    def load_weights(self, path, *a, **k):
        Network.log.append(("load", self, path))
        (self.body or self).weights = path

    def compile(self, *a, **k):
        Network.log.append(("compile", self, _args(["optimizer", "loss", "metrics"], a, k)))
        self.compiled = True

    def fit_generator(self, *a, **k):
        d = _args(["generator", "steps_per_epoch", "epochs", "verbose", "callbacks", "validation_data", "validation_steps"], a, k)
        d["_compiled"] = getattr(self, "compiled", False)
        d["_weights"] = getattr(self.body or self, "weights", "none")
        Network.log.append(("fit", self, d))

    fit = fit_generator


class Body(Network):
    def __init__(self, n):
        super().__init__()
        self.layers = [Layer("conv") for _ in range(n)]
        self.input = Tensor(None, self)
        self.output = Tensor(self.layers[-1], self.input)


class Recorder:
    def __init__(self, kind, *a, **k):
        self.kind, self.a, self.k = kind, a, k


class Pictures:
    """What flow_from_directory gives: the pictures of a folder, one class per sub-folder."""
    def __init__(self, gen, d):
        self.gen, self.d = gen, d
        self.class_indices = d.get("_classes", {})
        self.batch_size = d.get("batch_size", 32)
        self.filenames = []


class ImageDataGenerator:
    def __init__(self, **k):
        self.k = k

    def flow_from_directory(self, *a, **k):
        import os
        d = _args(["directory", "target_size", "color_mode", "classes", "class_mode", "batch_size"], a, k)
        d["_classes"] = {n: i for i, n in enumerate(sorted(os.listdir(d["directory"])))}
        return Pictures(self, d)


def img_to_array(img, *a, **k):
    x = np.asarray(img, dtype="float32")
    return x.reshape(x.shape + (1,)) if x.ndim == 2 else x


def imresize(arr, size, interp="bilinear", mode=None):
    """As SciPy had it: bytes are resized by Pillow; anything else is first stretched to bytes."""
    a = np.asarray(arr)
    if a.dtype != np.uint8:
        lo, hi = float(a.min()), float(a.max())
        a = np.uint8(np.clip((a - lo) * (255.0 / ((hi - lo) or 1)) + .5, 0, 255))
    im = Image.fromarray(a)
    return np.array(im.resize((size[1], size[0]), Image.BILINEAR))


def install():
    def module(name, **k):
        m = types.ModuleType(name)
        m.__dict__.update(k)
        m.__path__ = []
        sys.modules[name] = m
        head, _, tail = name.rpartition(".")
        if head:
            setattr(sys.modules[head], tail, m)
        return m

    module("keras")
    module("keras.applications")
    loaders = {}
    for f, c in (("vgg16", "VGG16"), ("vgg19", "VGG19"), ("resnet50", "ResNet50")):
        loaders[c] = lambda *a, _c=c, **k: Recorder(_c, *a, **k)
        module("keras.applications." + f, **{c: loaders[c]})
    module("keras_applications")
    for f, c in (("inception_v3", "InceptionV3"), ("mobilenet", "MobileNet"), ("mobilenet_v2", "MobileNetV2")):
        module("keras_applications." + f, **{c: lambda *a, _c=c, **k: Recorder(_c, *a, **k)})
    module("keras.preprocessing")
    module("keras.preprocessing.image", ImageDataGenerator=ImageDataGenerator, DirectoryIterator=Pictures, img_to_array=img_to_array)
    module("keras.layers", GlobalAveragePooling2D=lambda *a, **k: Layer("pool", *a, **k), Dense=lambda *a, **k: Layer("dense", *a, **k),
           Dropout=lambda *a, **k: Layer("drop", *a, **k))
    module("keras.models", Model=Network)
    module("keras.optimizers", Adam=lambda *a, **k: Recorder("adam", *a, **k), Optimizer=Recorder)
    module("keras.callbacks", TensorBoard=lambda *a, **k: Recorder("board", *a, **k), ModelCheckpoint=lambda *a, **k: Recorder("keep", *a, **k))
    module("keras.backend")
    module("keras.backend.tensorflow_backend", set_session=lambda s: None)
    module("tensorflow", ConfigProto=lambda **k: types.SimpleNamespace(gpu_options=types.SimpleNamespace(allow_growth=False)),
           GPUOptions=lambda **k: None, Session=lambda **k: None, Tensor=Tensor)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        import scipy
        try:
            import scipy.misc as m
        except Exception:
            m = module("scipy.misc")
        m.imresize = imresize
        scipy.misc = m
