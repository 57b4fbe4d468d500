import json
import os

import numpy as np
from hypothesis import strategies as st

from lib import docs, features, gen, neural_fake, tf1
from lib.core import Check, check, check_eq, Violation
from lib.other import other
from babylondigger.features.provider import PosDictExtractorProvider, LemmaDictExtractorProvider, LemmaTransformationExtractorProvider, LemmaCharExtractorProvider, \
    TrainableWordEmbeddingExtractorProvider, SubwordsExtractorProvider, SentenceLengthExtractorProvider, WordEmbeddingExtractorProvider, SubwordEmbeddingExtractorProvider
from props import c26

PROPERTY = "C21"
RULE = ("histories: taggers are created, trained, saved, loaded and run in an interleaved way, with early stops and failures, on a model stand-in whose predictions reveal any "
        "difference in state or features; non-trivial: a tagger is loaded after further training or after another one was saved. process: a saved tagger is loaded in a process with another "
        "hash seed. network: the same on real TensorFlow networks")
ASSUMPTIONS = ["in histories the model behind the tagger is a stand-in with the interface of babylondigger.neural.model.Model",
               "places of saved taggers are not overwritten while a tagger loaded from there is running"]

FEATURES = ["words", "length", "chars", "bpe", "vectors", "subvectors"]
LABELS = ["pos_UXF", "pos_gran", "pos_XF", "pos_joint", "lemma_dict", "lemma_rules", "lemma_chars"]
N_PATHS = 4


@st.composite
def configs(draw):
    pos = draw(st.sampled_from(LABELS[:4] + [None]))
    lemma = draw(st.sampled_from(LABELS[4:] + ([None] if pos else [])))
    return {"features": draw(st.lists(st.sampled_from(FEATURES), min_size=1, max_size=4, unique=True)), "labels": [l for l in (pos, lemma) if l],
            "lowercase": draw(st.booleans()), "min_frequency": draw(st.integers(1, 3)), "threshold": draw(st.sampled_from([0, 0, 1])), "max_len": draw(st.integers(2, 9)),
            "from": draw(st.integers(0, 3))}


def usable(d):
    return any(s["toks"] for s in d["sents"])


_DOCS = gen.documents(n_sents=(1, 2, 4), max_tokens=(3, 8), pool_size=4, full=True)


@st.composite
def histories(draw):
    documents = draw(st.lists(_DOCS, min_size=2, max_size=4))
    ops = draw(st.lists(st.tuples(st.sampled_from(["save", "open", "train", "step", "new", "close", "open", "step", "step", "drop", "reload"]),
                                  st.integers(0, 11), st.integers(0, 11), st.integers(0, 63)), min_size=4, max_size=14))
    return {"documents": documents, "configs": draw(st.lists(configs(), min_size=1, max_size=2)), "ops": ops, "pretrained": draw(st.booleans()),
            "names": draw(st.sampled_from([["m0", "m1", "m2", "m3"], ["b", "a b", "\u0451", "a.b"], ["epoch-1", "epoch-10", "epoch-2", "epoch-0"]]))}


def providers(config, path, subpath):
    make = {"words": lambda: TrainableWordEmbeddingExtractorProvider("word", {"min_frequency": config["min_frequency"], "lowercase": config["lowercase"]}),
            "length": lambda: SentenceLengthExtractorProvider("length"),
            "chars": lambda: SubwordsExtractorProvider("chars", {"min_frequency": config["min_frequency"], "segmenter": "char"}),
            "bpe": lambda: SubwordsExtractorProvider("bpe", {"min_frequency": config["min_frequency"], "segmenter": "bpe", "segmenter_config": {"language": "x", "vocab_size": 2}}),
            "vectors": lambda: WordEmbeddingExtractorProvider("vector", "vector_init", {"path": path, "lowercase": config["lowercase"]}),
            "subvectors": lambda: SubwordEmbeddingExtractorProvider("subvector", "subvector_init", {"embedding_path": subpath, "segmenter": "char"}),
            "lemma_dict": lambda: LemmaDictExtractorProvider("lemma"),
            "lemma_rules": lambda: LemmaTransformationExtractorProvider("applicable", "lemma", {"rules_threshold": config["threshold"]}),
            "lemma_chars": lambda: LemmaCharExtractorProvider("lemma", {"min_frequency": 1, "max_word_length": config["max_len"], "segmenter": "char"})}
    names = list(config["features"])
    if names == ["length"]:
        names.append("chars")
    result = [make[f]() for f in names]
    for l in config["labels"]:
        result.append(PosDictExtractorProvider("pos", l) if l.startswith("pos") else make[l]())
    return result


class Failure(Exception):
    pass


class Tagger(object):
    """tagger in memory"""

    def __init__(self, case, config, documents, scratch):
        path, subpath = os.path.join(scratch, "vectors.txt"), os.path.join(scratch, "subvectors.txt")
        if not os.path.exists(path):
            with open(path, "w") as f:
                f.write("3 2\na 0.5 1.0\nab -1.5 2.0\nA 0.25 0.5\n")
            with open(subpath, "w") as f:
                f.write("2 1\na 0.5\nB 1.5\n")
        train = [d for d in documents[config["from"] % len(documents):] if d.tokens_count] or [d for d in documents if d.tokens_count]
        self.extract, self.label, self.interpreter, initializer = features.assemble(providers(config, path, subpath), features.DataSet(train))
        sizes = dict(initializer.shapes())
        if "lemma_chars" in config["labels"]:
            sizes["lemma"] = {"c{}".format(i): sizes["lemma"][0] for i in range(config["max_len"])}
        self.model = neural_fake.FakeModel.new(neural_fake.FakeNetwork(sizes), None)
        self.model.initialize(**initializer.initial_values())
        self.tagger = neural_fake.neural_tagger().NeuralTagger(self.extract, self.model, self.interpreter)
        self.sents = features.sentences(train)

    def train(self, n):
        s = self.sents[n % len(self.sents):][:2]
        self.model.train(self.extract.get_features(s), self.label.get_features(s))


def views(documents):
    return [docs.view(d) for d in documents]


def check_views(got, want, what):
    if got != want:
        for g, w in zip(got, want):
            if g != w:
                raise Violation("{}: {} instead of {}".format(what, json.dumps(g)[:700], json.dumps(w)[:700]))
        raise Violation(what + ": number of documents")


def run(case, ctx):
    world = neural_fake.new_world()
    module = neural_fake.neural_tagger()
    scratch = ctx.scratch()
    base = os.path.join(scratch, "models")
    documents = [docs.build(d) for d in case["documents"]]
    if not any(d.tokens_count for d in documents):
        return
    before = views(documents)
    taggers, saved, running = [], {}, []  # saved: path number -> (expected views, lazy tagger, state counter)
    interesting = False
    changes = 0

    def new(n):
        taggers.append(Tagger(case, case["configs"][n % len(case["configs"])], documents, scratch))

    def step(r):
        """-> True when finished"""
        try:
            got = next(r["gen"])
        except StopIteration:
            check(r["fail"] is None or r["fail"] >= len(r["docs"]), "failure was swallowed")
            check_eq(r["pos"], len(r["docs"]), "number of tagged documents")
            return True
        except Failure:
            check(r["fail"] is not None and r["pos"] == r["fail"], "failure at another place", r["pos"], r["fail"])
            return True
        check(r["pos"] < len(r["docs"]), "too many documents")
        check_views([docs.view(got)], [r["want"][r["docs"][r["pos"]]]], "tagged by the tagger loaded from {}".format(case["names"][r["path"]]))
        r["pos"] += 1
        return False

    def source(indices, fail):
        for k, i in enumerate(indices):
            if k == fail:
                raise Failure()
            yield documents[i]
        if fail == len(indices):
            raise Failure()

    new(0)
    for op, a, b, c in case["ops"]:
        if op == "new" and len(taggers) < 3:
            new(a)
        elif op == "train":
            taggers[a % len(taggers)].train(b)
            changes += 1
        elif op == "save":
            p = b % N_PATHS
            if any(r["path"] == p for r in running):
                continue
            tagger = taggers[a % len(taggers)]
            want = views(tagger.tagger.tag(iter(documents)))
            lazy = tagger.tagger.save(os.path.join(base, case["names"][p]))
            changes += 1
            saved[p] = (want, lazy, changes)
        elif op in ("open", "reload") and saved and len(running) < 3:
            p = sorted(saved)[a % len(saved)]
            want, lazy, when = saved[p]
            interesting |= changes > when
            indices = [i for i in range(len(documents)) if c >> i & 1] + [b % len(documents)]
            fail = b % (len(indices) + 1) if c >> 4 == 3 else None
            path = os.path.join(base, case["names"][p])
            if op == "reload":
                # loaded explicitly: used and closed as a context manager
                with module.NeuralTagger.load(path) as loaded:
                    check_views(views(loaded.tag(documents[i] for i in indices)), [want[i] for i in indices], "tagged after loading {}".format(case["names"][p]))
                continue
            tagger = lazy if b % 2 else module.LazyNeuralTagger(path)
            r = {"gen": tagger.tag(source(indices, fail)), "docs": indices, "fail": fail, "want": want, "path": p, "pos": 0}
            if fail == len(indices):
                r["fail"] = fail
            if c % 5 == 3 and fail is None:  # the model fails
                world.fail_predict, world.failure = 0, Failure()
                r["fail"] = next((k for k, i in enumerate(indices) if documents[i].tokens_count), len(indices) + 1)
                done = drain(step, r)
                world.fail_predict = None
                check(done, "tagging went on after a failure of the model")
                ctx.label("failure of the model")
            elif not step(r):
                running.append(r)
            ctx.label("failure of the input", fail is not None)
        elif op == "step" and running:
            r = running[a % len(running)]
            if step(r):
                running.remove(r)
        elif op in ("close", "drop") and running:
            r = running.pop(a % len(running))
            if op == "close":
                r["gen"].close()
            del r
            ctx.label("stopped early")
        check(world.open <= len(taggers) + len(running), "loaded models are not released", world.open, len(taggers), len(running), op)
    for r in running:
        drain(step, r)
    check_eq(world.open, len(taggers), "open models when all tagging is over")
    for p, (want, lazy, when) in saved.items():
        interesting |= changes > when
        check_views(views(lazy.tag(iter(documents))), want, "tagged by the tagger saved at {}".format(case["names"][p]))
    check_eq(views(documents), before, "documents after tagging")
    if case["pretrained"] and saved:
        seen = []

        def tester(tagger):
            seen.append(views(tagger.tag(iter(documents))))
            return len(seen)

        result = list(module.PretrainedTaggerTrainer().train(documents, dev_tester=tester, model_dir=base))
        order = sorted(saved, key=lambda p: case["names"][p])
        check_eq([s for s, _ in result], list(range(1, len(order) + 1)), "scores of saved taggers")
        for k, p in enumerate(order):
            check_views(seen[k], saved[p][0], "tagged by pretrained tagger number {}".format(k))
            check_views(views(result[k][1].tag(iter(documents))), saved[p][0], "tagged by the yielded pretrained tagger number {}".format(k))
        ctx.label("pretrained")
    check_eq(world.open, len(taggers), "open models at the end")
    for t in taggers:
        t.tagger.close()
    check_eq(world.open, 0, "open models after closing all taggers")
    ctx.nontrivial(interesting)
    ctx.label("several places", len(saved) > 1)


def drain(step, r):
    for _ in range(len(r["docs"]) + 2):
        if step(r):
            return True
    return False


# ------------------------------------------------------------------ another process

@st.composite
def processes(draw):
    return {"documents": draw(st.lists(_DOCS, min_size=1, max_size=3)), "unseen": draw(_DOCS), "config": draw(configs())}


def run_process(case, ctx):
    neural_fake.new_world()
    scratch = ctx.scratch()
    documents = [docs.build(d) for d in case["documents"]]
    if not any(d.tokens_count for d in documents):
        return
    tagger = Tagger(case, case["config"], documents, scratch)
    tagger.train(0)
    specs = case["documents"] + [case["unseen"]]
    want = json.loads(json.dumps(views(tagger.tagger.tag(docs.build(d) for d in specs))))
    path = os.path.join(scratch, "saved")
    tagger.tagger.save(path)
    for name in ("vectors.txt", "subvectors.txt"):  # files for training are not needed any more
        os.remove(os.path.join(scratch, name))
    got, error = other("fake").tag(path, "docs", specs)
    check(error is None, "tagging in another process failed", error)
    check_views(got, want, "tagged in another process")
    ctx.nontrivial(sum(d.tokens_count for d in documents) > 3)


# ------------------------------------------------------------------ real networks

@st.composite
def networks(draw):
    case = draw(c26.cases())
    if draw(st.integers(0, 2)):
        case["shared"] = draw(st.sampled_from(["WE_charCNN", "Dilated_CNN"]))
    case["epochs"] = draw(st.integers(1, 2))
    case["process"] = draw(st.integers(0, 2)) == 1
    return case


def run_network(case, ctx):
    tf1.install()
    from babylondigger.neural.tagger import neural_tagger as module
    from babylondigger.neural.model import Model
    from babylondigger.neural.tagger.network_provider import get_nn_builder
    from babylondigger.features.provider import FeatureExtractorBuilderProvider
    scratch = ctx.scratch()
    train = features.DataSet([c26.documents(case, [s]) for s in case["train"]])
    documents = [c26.documents(case, case["batch"]), c26.documents(case, case["train"])]
    shared, tasks, general, _ = c26.config(case, scratch)

    # explicit: in memory against loaded
    builder = get_nn_builder(shared, tasks, general, case["seed"])
    extract, label, interpreter, initializer = FeatureExtractorBuilderProvider(builder.feature_providers()).build(train)
    network, graph = builder.build(initializer.shapes())
    sents = features.sentences(train)

    def fit(model):
        model.train(extract.get_features(sents), dict(label.get_features(sents), learning_rate=0.3, dropout_probability=0.5))

    history = []
    with Model.new(network, graph) as model:
        model.initialize(**initializer.initial_values())
        tagger = module.NeuralTagger(extract, model, interpreter)
        for epoch in range(case["epochs"]):
            fit(model)
            want = views(tagger.tag(iter(documents)))
            history.append((want, tagger.save(os.path.join(scratch, "models", "epoch-{}".format(epoch)))))
        fit(model)
        for k, (want, lazy) in enumerate(history):
            check_views(views(lazy.tag(iter(documents))), want, "tagged by the network of epoch {}".format(k))
        if case["epochs"] > 1:  # saved again at a place where another state was saved
            want = views(tagger.tag(iter(documents)))
            lazy = tagger.save(os.path.join(scratch, "models", "epoch-0"))
            check_views(views(lazy.tag(iter(documents))), want, "tagged by the network saved again at the same place")
    if case["process"]:
        want, lazy = history[-1]
        got, error = other("real").tag(os.path.join(scratch, "models", "epoch-{}".format(case["epochs"] - 1)), "c26", [[case, case["batch"]], [case, case["train"]]])
        check(error is None, "tagging in another process failed", error)
        check_views(got, json.loads(json.dumps(want)), "tagged in another process")
        ctx.label("another process")

    # by the trainer: what was tested is what stays
    nn_config = {"general": general, "shared_part": shared}
    names = []
    for t, task in zip(case["tasks"], tasks):
        nn_config[t] = task
        names.append(t)
    tested = []

    class Score(object):
        aligned_accuracy = 0.5

    def tester(tagger):
        tested.append(views(tagger.tag(iter(documents))))
        return {"x": Score()}

    result = list(module.NeuralTaggerTrainer().train(train, dev_tester=tester, seed=case["seed"], nn_config=nn_config, tasks=names, epochs=case["epochs"], dropout=0.75,
                                                     batch_size=2, model_dir=os.path.join(scratch, "trained")))
    check_eq(len(result), case["epochs"], "epochs")
    for k, (_, tagger) in enumerate(result):
        check_views(views(tagger.tag(iter(documents))), tested[k], "tagged after training by the network of epoch {}".format(k))
    ctx.nontrivial(case["epochs"] > 1)
    for t in names:
        ctx.label(t)


CHECKS = [Check("histories", histories, run, quick=2400, thorough=80000, chunk=50),
          Check("process", processes, run_process, quick=800, thorough=16000, chunk=25),
          Check("network", networks, run_network, quick=40, thorough=3000, chunk=5, timeout=300)]
