"""Stand-ins for the parts which need TensorFlow 1: the neural trainer is replaced by one driven by the harness."""
import sys
import types

TRAINER = {}  # "neural", "neural_pretrained" -> function(documents, **kwargs) that trains


class NeuralTaggerTrainer(object):
    def train(self, documents, **kwargs):
        return TRAINER["neural"](documents, **kwargs)


class PretrainedTaggerTrainer(object):
    def train(self, documents, **kwargs):
        return TRAINER["neural_pretrained"](documents, **kwargs)


def install():
    name = "babylondigger.neural.tagger.neural_tagger"
    if name not in sys.modules:
        m = types.ModuleType(name)
        m.NeuralTaggerTrainer = NeuralTaggerTrainer
        m.PretrainedTaggerTrainer = PretrainedTaggerTrainer
        import babylondigger.neural.tagger as parent
        sys.modules[name] = m
        parent.neural_tagger = m
