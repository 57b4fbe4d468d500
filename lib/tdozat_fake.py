"""Stand-in for the external package tdozat_parser (not installed here), with the parts of its interface that the wrapper uses.

As in the original: sentences are distributed to batches by length, so that predictions arrive out of order; position 0 of every sentence is the artificial root;
arrays of a batch are padded; predictions accumulate in GraphOutputs, and the sentences read accumulate in the vocabularies, until they are reset.  The graph is a real one (lib.tf1): what the network gives out depends on a
variable which is restored from a checkpoint and on another one which is not saved but initialized.
"""
import os
import sys
import types

import numpy as np

SAVED, INITIAL = 3.0, 2.0
SCRIPT = {}  # set by the check: "codes", "fields", "heads", "batch", "fail", "network", "log", "files", "width", "factorized": whether relations are predicted separately from heads, "more": further outputs of a parser

INPUT = {"id": 0, "form": 1, "lemma": 2, "upos": 3, "xpos": 4, "ufeats": 5}


class Failure(Exception):
    pass


def code(sentence, position):
    """what the network gives out for a word: any number up to 10 ** 4"""
    codes = SCRIPT["codes"]
    return (codes[(sentence * 7 + position) % len(codes)] + sentence * 31 + position * 3) % 10 ** 4


class Vocab(object):
    def __init__(self, field, output):
        self.field, self.output = field, output
        self.factorized = bool(SCRIPT["factorized"]) == (field == "deprel")
        self.sentences = []

    def reset(self):
        self.sentences = []

    def __getitem__(self, item):
        if isinstance(item, (list, np.ndarray)):
            return [self[i] for i in item]
        if self.field == "dephead":
            return str(int(item))
        values = SCRIPT["fields"][self.field]
        return values[int(item) % len(values)]


class Config(object):
    def __init__(self, defaults_file="", config_file="", **kwargs):
        self.config_file, self.kwargs = config_file, kwargs
        with open(config_file) as f:
            self.network = f.read().strip()

    def get(self, section, name):
        assert (section, name) == ("DEFAULT", "network_class")
        return self.network


class Network(object):
    OUTPUT = []

    def __init__(self, config=None):
        self.config = config
        self.classname = type(self).__name__
        self.save_dir = config.kwargs["DEFAULT"]["save_metadir"]
        inputs = [f for f in SCRIPT["inputs"] if f not in self.OUTPUT]
        self.output_vocabs = [Vocab(f, True) for f in self.OUTPUT + [f for f in SCRIPT["more"] if self.OUTPUT[-1] == "deprel"]]
        self.vocabs = [Vocab(f, False) for f in inputs] + self.output_vocabs

    def build_graph(self, reuse=True):
        return graph()


def graph():
    import tensorflow as tf
    tf.get_variable("saved", [], initializer=tf.constant_initializer(1.0))
    saved = [v for v in tf.global_variables() if v.name.endswith("saved:0")][0]
    other = tf.get_variable("other", [], initializer=tf.constant_initializer(INITIAL))
    tf.add_to_collection("non_save_variables", other)
    tokens = tf.placeholder(tf.float32, [None, None], "tokens")
    SCRIPT["placeholder"] = tokens
    value = tokens * saved * other
    layer = lambda k: tf.stack([value + k] * 2, axis=-1)
    return {"probabilities": value, "deptree": {"recur_layer": layer(1)}, "upos": {"recur_layer": layer(2), "hidden_layer": layer(3)}, "xpos": {"hidden_layer": layer(4)},
            "plain": layer(5), "zero": layer(0) * 0.0}, tokens


EXTRA = {("deptree", "recur_layer"): 1, ("upos", "recur_layer"): 2, ("upos", "hidden_layer"): 3, ("xpos", "hidden_layer"): 4, ("plain",): 5, ("zero",): 0}


class ParserNetwork(Network):
    OUTPUT = ["dephead", "deprel"]


class TaggerNetwork(Network):
    OUTPUT = ["upos", "xpos"]


class GraphOutputs(object):
    def __init__(self, outputs, tokens, load=True, evals=None, factored_deptree=None, factored_semgraph=None, config=None):
        self.probabilities = outputs["probabilities"]
        self.factored = {"deprel": factored_deptree, "semrel": factored_semgraph}
        self.predictions = {"indices": []}

    def probs_to_preds(self, probabilities, lengths):
        numbers = np.rint(np.asarray(probabilities) / (SAVED * INITIAL)).astype(int)
        if not np.allclose(numbers * SAVED * INITIAL, probabilities):
            raise AssertionError("the network was not restored from its checkpoint: {}".format(probabilities))
        result = {f: numbers for f in SCRIPT["fields"]}
        for f in self.factored:
            if f in result and bool(self.factored[f]) != (bool(SCRIPT["factorized"]) == (f == "deprel")):
                result[f] = numbers + 1  # the arrays mean something else
        heads = np.zeros_like(numbers)
        for row, (line, n) in enumerate(zip(numbers, lengths)):
            tree = SCRIPT["heads"]([int(c) for c in line[1:n]])
            heads[row, 1:n] = tree
        result["dephead"] = heads
        return result

    def cache_predictions(self, tokens, indices):
        self.predictions["indices"].extend(indices)
        for field in tokens:
            self.predictions.setdefault(field, []).extend(tokens[field])


class CoNLLUDataset(object):
    def __init__(self, conllu_files, vocabs, config=None):
        self.vocabs = vocabs
        self.sentences = []
        for f in conllu_files:
            for sentence in self.itersents(f):
                if sentence:
                    self.sentences.append([list(line) for line in sentence])
                    for v in vocabs:
                        if v.field in INPUT:
                            v.sentences.append([line[INPUT[v.field]] for line in sentence])
        SCRIPT["log"].append(self.sentences)

    def batch_iterator(self, shuffle=False):
        assert not shuffle
        order = sorted(range(len(self.sentences)), key=lambda i: (len(self.sentences[i]), i))
        size = SCRIPT["batch"]
        batches = [order[i:i + size] for i in range(0, len(order), size)]
        for k, b in enumerate(batches):
            if SCRIPT["fail"] == k:
                raise Failure(k)
            yield np.array(b)

    def get_tokens(self, indices):
        tokens = {}
        for v in self.vocabs:
            if v.field in INPUT:
                tokens[v.field] = [["0" if v.field == "id" else "<ROOT>"] + v.sentences[i] for i in indices]
        return tokens, [len(self.sentences[i]) + 1 for i in indices]

    def set_placeholders(self, indices, feed_dict=None):
        width = max(len(self.sentences[i]) for i in indices) + 1 + SCRIPT["width"]
        values = np.full([len(indices), width], 5.0)
        for row, i in enumerate(indices):
            for j in range(1, len(self.sentences[i]) + 1):
                values[row, j] = code(int(i), j)
        return {SCRIPT["placeholder"]: values}


def install():
    from lib import tf1
    tf1.install()
    if "tdozat_parser" in sys.modules:
        return
    names = {}
    for name in ("tdozat_parser", "tdozat_parser.parser", "tdozat_parser.parser.config", "tdozat_parser.parser.structs", "tdozat_parser.parser.structs.conllu_dataset",
                 "tdozat_parser.parser.graph_outputs"):
        m = types.ModuleType(name)
        m.__path__ = []
        sys.modules[name] = names[name] = m
        if "." in name:
            parent, child = name.rsplit(".", 1)
            setattr(names[parent], child, m)
    names["tdozat_parser.parser"].ParserNetwork = ParserNetwork
    names["tdozat_parser.parser"].TaggerNetwork = TaggerNetwork
    names["tdozat_parser.parser.config"].Config = Config
    names["tdozat_parser.parser.structs.conllu_dataset"].CoNLLUDataset = CoNLLUDataset
    names["tdozat_parser.parser.graph_outputs"].GraphOutputs = GraphOutputs


def write_model(folder, network, config_name):
    """a trained model: configuration and checkpoint"""
    import tensorflow as tf
    with open(os.path.join(folder, config_name), "w") as f:
        f.write(network)
    with tf.Graph().as_default():
        with tf.variable_scope(network):
            v = tf.get_variable("saved", [], initializer=tf.constant_initializer(SAVED))
        with tf.Session() as session:
            session.run(v.initializer)
            tf.train.Saver([v]).save(session, os.path.join(folder, "ckpt"))
