import contextlib
import io
import os
import re
from fractions import Fraction

from hypothesis import strategies as st

from lib import docs, features, gen, neural_fake
from lib.core import Check, check, check_eq
from babylondigger.features.provider import PosDictExtractorProvider, LemmaDictExtractorProvider, LemmaTransformationExtractorProvider, \
    TrainableWordEmbeddingExtractorProvider, SubwordsExtractorProvider, SentenceLengthExtractorProvider, WordEmbeddingExtractorProvider

PROPERTY = "C22"
RULE = ("cases are training runs (data, batch size, epochs, optimizer settings, sparsification, development scores per epoch, early stop or failure), observed at a "
        "recording model; non-trivial: at least two epochs of at least two batches")
ASSUMPTIONS = ["the model behind the trainer is a stand-in with the interface of babylondigger.neural.model.Model", "training data can be iterated repeatedly"]

LEVELS = [0, 0.25, 0.5, 0.5, 0.625, 0.75, 1]


@st.composite
def cases(draw, big=False):
    documents = draw(st.lists(gen.documents(n_sents=(1, 4, 8), max_tokens=(4, 9), pool_size=4, full=True), min_size=0 if big else 1, max_size=4))
    if big:
        documents.insert(draw(st.integers(0, len(documents))), draw(gen.documents(n_sents=(1, 4, 8), max_tokens=(4, 9), pool_size=4, full=True, big=big)))
    n = 0
    for d in documents:
        for s in d["sents"]:
            for t in s["toks"]:
                for w in t["words"]:
                    w["t"] = "w{}".format(n)
                    n += 1
                if not t["mwt"]:
                    t["form"] = t["words"][0]["t"]
    if n == 0:
        documents.append({"sents": [{"tree": False, "toks": [{"form": "w0", "sp": True, "mwt": False, "words": [dict(t="w0", l="a", u="U", x="X", f={}, p=True, h=None, d=None)]}]}]})
    epochs = draw(st.sampled_from([2, 3])) if big else draw(st.sampled_from([3, 1, 2, 5, 8, 12, 3, 2, 5, 40]))
    return {"documents": documents, "epochs": epochs, "batch": draw(st.one_of(st.integers(1, 4), st.sampled_from([1, 2, 100, 64] if not big else [1, 7, 32, 33, 64, 100]))),
            "shuffle": draw(st.sampled_from([0, 1, 2])), "dropout": draw(st.sampled_from([0.5, 1.0, 0.25])), "rate": draw(st.sampled_from([None, 0, 0, 1, 0.5])),
            "optimizer": {"type": "Adam", "initial_lr": draw(st.sampled_from([0.002, 1.0, 0.1])), "lr_decay": draw(st.sampled_from([0.0, 0.05, 1.0, 0.5])),
                          "lr_decrease_factor": draw(st.sampled_from([2, 1, 10, 4.0]))},
            "scores": draw(st.lists(st.lists(st.sampled_from(LEVELS + [None]), min_size=1, max_size=3), min_size=epochs, max_size=epochs)),
            "tester": draw(st.integers(0, 5)) != 4, "tasks": draw(st.sampled_from([["pos"], ["lemma"], ["pos", "lemma"], ["lemma", "pos"]])),
            "seed": draw(st.integers(0, 10 ** 6)), "stop": draw(st.sampled_from([None, None, None, "close", "fail"])), "name": draw(st.sampled_from([None, "model-{}", "{}", "e{}x"])),
            "features": draw(st.lists(st.sampled_from(["length", "chars", "vectors"]), max_size=3, unique=True)), "lemma": draw(st.sampled_from(["dict", "rules"]))}


class Data(object):
    """training data; every iteration for training may have its own order, which is recorded"""

    def __init__(self, documents, shuffle, started):
        self.documents, self.shuffle, self.started = documents, shuffle, started
        self.orders = []

    def __iter__(self):
        if not self.started():
            return iter(self.documents)
        k = len(self.orders) * self.shuffle % len(self.documents)
        order = self.documents[k:] + self.documents[:k]
        self.orders.append(order)
        return iter(order)


class Score(object):
    def __init__(self, accuracy):
        self.aligned_accuracy = accuracy


class Stop(Exception):
    pass


def providers(case, path):
    result = [TrainableWordEmbeddingExtractorProvider("word", {"min_frequency": 1, "lowercase": False})]
    for f in case["features"]:
        result.append({"length": lambda: SentenceLengthExtractorProvider("length"),
                       "chars": lambda: SubwordsExtractorProvider("chars", {"min_frequency": 2, "segmenter": "char"}),
                       "vectors": lambda: WordEmbeddingExtractorProvider("vector", "vector_init", {"path": path, "lowercase": True})}[f]())
    for t in case["tasks"]:
        if t == "pos":
            result.append(PosDictExtractorProvider("pos", "pos_UXF"))
        elif case["lemma"] == "dict":
            result.append(LemmaDictExtractorProvider("lemma"))
        else:
            result.append(LemmaTransformationExtractorProvider("applicable", "lemma", {"rules_threshold": 0}))
    return result


def run(case, ctx):
    world = neural_fake.new_world()
    scratch = ctx.scratch()
    path = os.path.join(scratch, "vectors.txt")
    with open(path, "w") as f:
        f.write("2 2\nw0 0.5 1.0\nw3 -1.5 2.0\n")
    documents = [docs.build(d) for d in case["documents"]]
    before = [docs.view(d) for d in documents]
    data = Data(documents, case["shuffle"], lambda: any(e[0] == "initialize" for e in world.events))
    world.providers = providers(case, path)
    # reference extractors, built from the same data
    extract, label, _, initializer = features.assemble(providers(case, path), features.DataSet(documents))
    model_dir = os.path.join(scratch, "models")
    shared = {"builder": "b", "config": {} if case["rate"] is None else {"sparse_input_prob": case["rate"]}}
    nn_config = {"general": {"optimizer": case["optimizer"]}, "shared_part": shared, "pos": {"builder": "p", "config": {"x": 1}}, "lemma": {"builder": "l", "config": {"y": 2}}}
    kwargs = dict(seed=case["seed"], nn_config=nn_config, tasks=case["tasks"], epochs=case["epochs"], dropout=case["dropout"], batch_size=case["batch"], model_dir=model_dir)
    if case["name"] is not None:
        kwargs["model_name_format"] = case["name"]
    name = case["name"] or "epoch-{}"
    tested = []
    failing = case["epochs"] // 2 if case["stop"] else None

    def tester(tagger):
        epoch = len(tested)
        world.events.append(("test", epoch))
        tested.append(tagger)
        if case["stop"] == "fail" and epoch == failing:
            raise Stop()
        return {"m{}".format(i): Score(a) for i, a in enumerate(case["scores"][epoch])}

    if case["tester"]:
        kwargs["dev_tester"] = tester
    yielded = []
    run_ = neural_fake.neural_tagger().NeuralTaggerTrainer().train(data, **kwargs)
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        try:
            for scores, tagger in run_:
                world.events.append(("yield", len(yielded)))
                yielded.append((scores, tagger))
                if case["stop"] == "close" and len(yielded) - 1 == failing:
                    run_.close()
                    break
            failed = False
        except Stop:
            failed = True
    check_eq(world.open, 0, "models left open")
    stopped = case["tester"] and case["stop"]
    check_eq(failed, bool(stopped and case["stop"] == "fail"), "failure of the test passed on")
    epochs = failing + 1 if stopped else case["epochs"]
    check_eq([docs.view(d) for d in documents], before, "training documents")

    # network and initialization
    events = world.events
    check_eq([e[1:] for e in events if e[0] == "builder"], [(shared, [nn_config[t] for t in case["tasks"]], nn_config["general"], case["seed"])], "configuration of the network")
    check_eq([e[1] for e in events if e[0] == "build"], [dict(initializer.shapes())], "sizes given to the network")
    check_eq([e[1] for e in events if e[0] == "initialize"], [{k: [(i, list(v)) for i, v in rows] for k, rows in initializer.initial_values().items()}], "initial values")
    kinds = [e[0] for e in events]
    check(kinds.index("initialize") < kinds.index("train"), "trained before initialized")

    # epochs: training batches up to a saved model
    blocks = [[]]
    for e in events:
        if e[0] == "train":
            blocks[-1].append(e)
        elif e[0] == "save":
            blocks[-1].append(e)
            blocks.append([])
        elif e[0] in ("test", "yield"):
            blocks[-2].append(e)
    check_eq(len(blocks) - 1, epochs, "number of saved models")
    check_eq(blocks[-1], [], "training after the last model was saved")
    lr = case["optimizer"]["initial_lr"]
    history = [Fraction(0)] * 5
    if case["shuffle"]:
        check_eq(len(data.orders), epochs, "iterations over the training data")
    orders = data.orders if case["shuffle"] else [documents] * epochs
    rate = case["rate"] or 0
    decreased = False
    reported = [(int(a), float(b)) for a, b in re.findall(r"loss after epoch (\d+):\s*([-+0-9.e]+)", out.getvalue())]
    check_eq([a for a, _ in reported], list(range(1, epochs + 1)), "epochs whose loss is reported")
    trained = 0
    for epoch, (block, order) in enumerate(zip(blocks, orders)):
        batches = [e for e in block if e[0] == "train"]
        check([e[0] for e in block[:len(batches)]] == ["train"] * len(batches), "order of events in an epoch", [e[0] for e in block])
        check_eq(block[len(batches)], ("save", os.path.abspath(os.path.join(model_dir, name.format(epoch)))), "saved model of epoch {}".format(epoch))
        if case["tester"]:
            rest = [("test", epoch)] + ([] if stopped and case["stop"] == "fail" and epoch == epochs - 1 else [("yield", epoch)])
            check_eq(block[len(batches) + 1:], rest, "events after training epoch {}".format(epoch))
        sents = features.sentences(order)
        groups = [sents[i:i + case["batch"]] for i in range(0, len(sents), case["batch"])]
        check_eq(len(batches), len(groups), "number of batches in epoch {}".format(epoch))
        mean = sum(neural_fake.loss(trained + k) for k in range(len(groups))) / len(groups)
        check(abs(reported[epoch][1] - mean) <= 1e-4, "reported loss of epoch", epoch, reported[epoch][1], mean)
        trained += len(groups)
        lr = lr / (1 + case["optimizer"]["lr_decay"] * epoch)
        for (_, got, labels), group in zip(batches, groups):
            want = neural_fake._plain(extract.get_features(group))
            check_eq(set(got), set(want), "names of features")
            for key in want:
                if rate == 0 or key not in ("word", "chars", "vector"):
                    check_eq(got[key], want[key], "feature {} in epoch {}".format(key, epoch))
                else:
                    sparse(got[key], want[key], rate, key)
            labels = dict(labels)
            check(abs(labels.pop("learning_rate", -1) - lr) <= 1e-9 * lr, "learning rate in epoch", epoch, [e[2].get("learning_rate") for e in batches], lr)
            check_eq(labels.pop("dropout_probability", None), case["dropout"], "dropout")
            check_eq(labels, neural_fake._plain(label.get_features(group)), "labels in epoch {}".format(epoch))
        if case["tester"] and (epoch < epochs - 1 or not stopped):
            acc = sum((Fraction(a) for a in case["scores"][epoch] if a is not None), Fraction(0))
            if acc <= history[-1] and 5 * acc <= sum(history):
                lr = lr / case["optimizer"]["lr_decrease_factor"]
                decreased = True
            history = history[1:] + [acc]
    if case["tester"]:
        n = epochs - (1 if failed else 0)
        check_eq(len(yielded), n, "yielded models")
        for epoch, (scores, tagger) in enumerate(yielded):
            check(tagger is tested[epoch] or str(tagger) == str(tested[epoch]), "another tagger is yielded than tested", epoch)
            check_eq({k: v.aligned_accuracy for k, v in scores.items()}, {"m{}".format(i): a for i, a in enumerate(case["scores"][epoch])}, "yielded scores")
            # the yielded tagger is the model of this epoch, without sparsification
            mark = len(events)
            tagged = list(tagger.tag(iter(documents[:1])))
            check_eq(len(tagged), 1, "documents tagged by a yielded tagger")
            new = events[mark:]
            check_eq([e[1] for e in new if e[0] == "load"], [os.path.abspath(os.path.join(model_dir, name.format(epoch)))], "model used by the tagger of epoch {}".format(epoch))
            fed = [s for e in new if e[0] == "predict" for s in e[1]["word"]]
            want = [neural_fake._plain(extract.get_features([s]))["word"][0] for s in documents[0].sentences]
            check_eq([x for s in fed for x in s], [x for s in want for x in s], "features for tagging")
        check_eq(world.open, 0, "models left open after tagging")
        check_eq(len({str(t) for t in tested}), len(tested), "names of the models")
    n_batches = -(-len(features.sentences(documents)) // case["batch"])
    ctx.nontrivial(epochs > 1 and n_batches > 1)
    ctx.label("learning rate decreased", decreased)
    ctx.label("smaller last batch", len(features.sentences(documents)) % case["batch"] != 0 and n_batches > 1)
    ctx.label("without tester", not case["tester"])
    ctx.label("stopped", bool(stopped))
    ctx.label("sparse", rate > 0)


def sparse(got, want, rate, key):
    if isinstance(want, list):
        check(isinstance(got, list) and len(got) == len(want), "shape of a sparsified feature", key)
        for g, w in zip(got, want):
            sparse(g, w, rate, key)
    else:
        check(got == want or (got == 1 and want != 0), "value of a sparsified feature", key, got, want)
        check(rate != 1 or want == 0 or got == 1, "value at rate 1", key, got, want)


CHECKS = [Check("training", cases, run, quick=2400, thorough=80000, chunk=50),
          Check("large", lambda: cases("always"), run, quick=80, thorough=1500, chunk=2)]
