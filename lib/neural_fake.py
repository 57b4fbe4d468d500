"""The neural tagger and its trainer without TensorFlow: model and network builder are stand-ins that record what they are given.

The stand-in model predicts, for every token, labels which are a function of its training state and of all features of the token, so that any
difference in state or features shows.
"""
import importlib
import json
import os
import pickle
import sys
import types
import zlib

import numpy as np

PREFIX = "babylondigger.neural"


class World(object):
    """everything that happened; reset for every case"""

    def __init__(self):
        self.events = []
        self.open = 0
        self.providers = []   # feature providers used by the network builder
        self.fail_predict = None
        self.models = []


WORLD = [World()]


def world():
    return WORLD[0]


def loss(k):
    """loss of the k-th training batch"""
    return ((k * 37 + 11) % 64) / 16.0


def new_world():
    WORLD[0] = World()
    return WORLD[0]


class FakeNetwork(object):
    def __init__(self, sizes):
        self.sizes = sizes  # label name -> list of sizes


class FakeBuilder(object):
    def __init__(self, args):
        self.args = args

    def feature_providers(self):
        return list(world().providers)

    def build(self, shapes):
        world().events.append(("build", dict(shapes)))
        return FakeNetwork(dict(shapes)), "graph"


def get_nn_builder(shared, tasks, config, seed):
    world().events.append(("builder", shared, tasks, config, seed))
    return FakeBuilder((shared, tasks, config, seed))


def _digest(state, features):
    return zlib.crc32(repr((state, features)).encode("utf-8"))


class FakeModel(object):
    def __init__(self, network, session=None, state=None):
        self.network = network
        self.state = state if state is not None else []
        self.closed = False
        world().open += 1
        world().models.append(self)

    @classmethod
    def new(cls, network, tf_graph):
        return FakeModel(network)

    def initialize(self, **kwargs):
        world().events.append(("initialize", {k: [(i, list(v)) for i, v in rows] for k, rows in kwargs.items()}))
        self.state = self.state + ["init"]

    def train(self, features, labels):
        if self.closed:
            raise RuntimeError("closed model is trained")
        features, labels = _plain(features), _plain(labels)
        world().events.append(("train", features, labels))
        self.state = self.state + [zlib.crc32(repr(sorted(features.items())).encode("utf-8"))]
        return loss(sum(e[0] == "train" for e in world().events) - 1)

    def predict(self, features):
        if self.closed:
            raise RuntimeError("closed model is used")
        features = _plain(features)
        world().events.append(("predict", features))
        if world().fail_predict is not None:
            world().fail_predict -= 1
            if world().fail_predict < 0:
                raise world().failure
        return predict(self.network.sizes, self.state, features)

    def save(self, path):
        if self.closed:
            raise RuntimeError("closed model is saved")
        world().events.append(("save", os.path.abspath(path)))
        with open(os.path.join(path, "fake-model"), "w") as f:
            json.dump([self.state, {k: [list(v.items()) if isinstance(v, dict) else list(v), isinstance(v, dict)] for k, v in self.network.sizes.items()}], f)
        return lambda: FakeModel.load(path)

    @classmethod
    def load(cls, path):
        with open(os.path.join(path, "fake-model")) as f:
            state, sizes = json.load(f)
        world().events.append(("load", os.path.abspath(path)))
        return FakeModel(FakeNetwork({k: dict((a, b) for a, b in v) if d else v for k, (v, d) in sizes.items()}), None, state)

    def close(self):
        if not self.closed:
            self.closed = True
            world().open -= 1

    def __enter__(self):
        return self

    def __exit__(self, *args):
        self.close()


def _plain(values):
    result = {}
    for k, v in values.items():
        v = np.asarray(v).tolist() if isinstance(v, (list, tuple, np.ndarray)) else v
        result[k] = v
    return result


def token_features(features, s, t):
    """features of one token without trailing padding (so that the batch does not matter)"""
    result = []
    for name in sorted(features):
        value = features[name][s]
        if not isinstance(value, list):
            continue
        value = value[t]
        if isinstance(value, list) and not (value and isinstance(value[0], bool)):
            while value and value[-1] == 0:
                value = value[:-1]
        result.append((name, value))
    return result


LABEL_ORDER = {}


def predict(sizes, state, features):
    """labels of all tokens; names of labels are those of sizes given as dictionaries (announced parts)"""
    labels = {}
    some = next(v for v in features.values() if isinstance(v[0], list))
    n_sents, n_tokens = len(some), len(some[0])
    for name, parts in sizes.items():
        if isinstance(parts, dict):
            rows = []
            for s in range(n_sents):
                rows.append([[_digest([state, name, k], token_features(features, s, t)) % size for k, size in enumerate(parts.values())] for t in range(n_tokens)])
            labels[name] = np.array(rows, dtype=np.int32)
    return labels


_module = []


def neural_tagger():
    """module under test, imported with stand-ins for its neighbours"""
    if not _module:
        saved = {k: v for k, v in sys.modules.items() if k.startswith(PREFIX)}
        for k in saved:
            del sys.modules[k]
        model = types.ModuleType(PREFIX + ".model")
        model.Model = FakeModel
        provider = types.ModuleType(PREFIX + ".tagger.network_provider")
        provider.get_nn_builder = get_nn_builder
        neural = importlib.import_module(PREFIX)
        tagger = importlib.import_module(PREFIX + ".tagger")
        sys.modules[PREFIX + ".model"] = neural.model = model
        sys.modules[PREFIX + ".tagger.network_provider"] = tagger.network_provider = provider
        _module.append(importlib.import_module(PREFIX + ".tagger.neural_tagger"))
        for k in [k for k in sys.modules if k.startswith(PREFIX)]:
            del sys.modules[k]
        sys.modules.update(saved)
        import babylondigger
        if PREFIX in saved:
            babylondigger.neural = saved[PREFIX]
        elif hasattr(babylondigger, "neural"):
            del babylondigger.neural
    return _module[0]
