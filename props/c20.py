import os
import random

from hypothesis import strategies as st

from lib import docs, features, gen
from lib.core import Check, check, check_eq
from babylondigger.features import builder as fb
from babylondigger.features.provider import FeatureExtractorBuilderProvider, SentenceLengthExtractorProvider, TrainableWordEmbeddingExtractorProvider, \
    SubwordsExtractorProvider, LemmaDictExtractorProvider, PosDictExtractorProvider, LemmaTransformationExtractorProvider, LemmaCharExtractorProvider, \
    WordEmbeddingExtractorProvider, SubwordEmbeddingExtractorProvider

PROPERTY = "C20"
RULE = ("cases are batches of sentences of differing lengths with sets of real features and labels, freely nested compositions of toy features of all ranks, and "
        "sparsification rates; non-trivial: at least two sentences of different lengths and at least two features")
ASSUMPTIONS = ["an extractor returns a new list on every call (as all extractors of the project do)", "a feature has the same rank for all tokens"]

PADDING, OOV = 0, 1


def dims(value, rank):
    """maximal sizes per level"""
    if rank == 0:
        return []
    inner = [dims(v, rank - 1) for v in value]
    result = [len(value)]
    for level in range(rank - 1):
        result.append(max((d[level] for d in inner), default=0))
    return result


def padded(value, shape):
    if not shape:
        return value
    missing = blank(shape[1:])
    return [padded(v, shape[1:]) for v in value] + [missing] * (shape[0] - len(value))


def blank(shape):
    return PADDING if not shape else [blank(shape[1:])] * shape[0]


def rank_of(value):
    n = 0
    while isinstance(value, list):
        n += 1
        inner = [v for v in value if isinstance(v, list)]
        value = next((v for v in inner if v), inner[0] if inner else None)
    return n


def stack(values):
    """values of single sentences -> rectangular batch"""
    rank = max(rank_of(v) for v in values)
    shape = [len(values)] + [max((dims(v, rank)[level] for v in values), default=0) for level in range(rank)]
    return padded(values, shape)


# ------------------------------------------------------------------ real features

def vector_file(scratch, texts):
    """vectors for every second unit"""
    path = os.path.join(scratch, "vectors.txt")
    known = [t for t in sorted(set(texts)) if t and t.split() == [t]][::2] or ["zz"]
    with open(path, "w", encoding="utf-8") as f:
        for i, t in enumerate(known):
            f.write("{} {} {}\n".format(t, i, -i))
    return path


def providers(names, path=None, subpath=None):
    make = {
        "vectors": lambda: WordEmbeddingExtractorProvider("vectors", "vectors_init", {"path": path, "lowercase": False}),
        "subvectors": lambda: SubwordEmbeddingExtractorProvider("subvectors", "subvectors_init", {"embedding_path": subpath, "segmenter": "char"}),
        "length": lambda: SentenceLengthExtractorProvider("length"),
        "trained": lambda: TrainableWordEmbeddingExtractorProvider("trained", {"min_frequency": 1, "lowercase": False}),
        "trained2": lambda: TrainableWordEmbeddingExtractorProvider("trained2", {"min_frequency": 2, "lowercase": True}),
        "chars": lambda: SubwordsExtractorProvider("chars", {"min_frequency": 1, "segmenter": "char"}),
        "bpe": lambda: SubwordsExtractorProvider("bpe", {"min_frequency": 2, "segmenter": "bpe", "segmenter_config": {"language": "xx", "vocab_size": 2}}),
        "lemma": lambda: LemmaDictExtractorProvider("lemma"),
        "pos": lambda: PosDictExtractorProvider("pos", "pos_UXF"),
        "gran": lambda: PosDictExtractorProvider("gran", "pos_gran"),
        "rules": lambda: LemmaTransformationExtractorProvider("applicable", "rules", {"rules_threshold": 0}),
        "lchars": lambda: LemmaCharExtractorProvider("lchars", {"min_frequency": 1, "max_word_length": 4, "segmenter": "char"}),
    }
    return [make[n]() for n in names]


FEATURES = ["length", "trained", "trained2", "chars", "bpe", "vectors", "subvectors"]
LABELS = ["lemma", "pos", "gran", "rules", "lchars"]
SPARSE = {"trained", "trained2", "chars", "bpe", "vectors", "subvectors"}


@st.composite
def batches(draw, big=False):
    spec = draw(gen.documents(n_sents=(2, 5, 8), max_tokens=(6, 14), pool_size=5, full=True, big=big))
    if not spec["sents"]:
        spec = {"sents": [{"tree": False, "toks": [{"form": "a", "sp": True, "mwt": False, "words": [dict(t="a", l="a", u="U", x=None, f={}, p=True, h=None, d=None)]}]}]}
    names = draw(st.permutations(FEATURES))[:draw(st.integers(1, 7))] + draw(st.permutations(LABELS))[:draw(st.integers(0, 5))]
    return {"spec": spec, "names": draw(st.permutations(names)), "batches": draw(st.lists(st.lists(st.integers(0, 7), min_size=1, max_size=6), min_size=1, max_size=3)),
            "cut": draw(st.integers(1, 3)), "duplicate": draw(st.integers(0, 30)), "rate": draw(st.sampled_from([0, 1, 0.5, 0.1, 0.9, 0.0, 1.0]))}


def equal(a, b):
    """equality of nested lists; False counts as 0"""
    return a == b


def run_batch(case, ctx):
    sents = case["spec"]["sents"]
    k = case["cut"]
    documents = [docs.build({"sents": sents[i:i + k]}) for i in range(0, len(sents), k)]
    before = [docs.view(d) for d in documents]
    dataset = features.DataSet(documents)
    all_sentences = features.sentences(documents)
    words = [t.text for s in all_sentences for t in s.tokens]
    files = [vector_file(ctx.scratch(), words), vector_file(ctx.scratch(), [c for w in words for c in w])]
    extract, label, interpreter, initializer = features.assemble(providers(case["names"], *files), dataset, documents[-1:] if case["duplicate"] % 3 == 2 else None)
    shapes = initializer.shapes()
    initial = initializer.initial_values()
    check_eq(set(initial), {n + "_init" for n in case["names"] if n in ("vectors", "subvectors")}, "features with initial values")
    single = {}
    for name in case["names"]:
        e, l, i, init = features.assemble(providers([name], *files), dataset)
        single[name] = (e, l)
        for key, shape in init.shapes().items():
            check_eq(shapes.get(key), shape, "announced shape of {}".format(key))
        for key, value in init.initial_values().items():
            check_eq({i: list(v) for i, v in initial[key]}, {i: list(v) for i, v in value}, "initial value of {}".format(key))
    for picks in case["batches"]:
        batch = [all_sentences[i % len(all_sentences)] for i in picks]
        lengths = {s.tokens_count for s in batch}
        ctx.nontrivial(len(lengths) > 1 and len(case["names"]) > 1)
        got = {}
        for values, which in ((extract.get_features(batch), "features"), (label.get_features(batch), "labels")):
            for key, value in values.items():
                check(key not in got, "feature given as feature and label", key)
                got[key] = features.plain(value)
        expected = {}
        for name in case["names"]:
            e, l = single[name]
            per_sentence = [(features.plain_dict(e.get_features([s])), features.plain_dict(l.get_features([s]))) for s in batch]
            for part in (0, 1):
                for key in per_sentence[0][part]:
                    expected[key] = stack([p[part][key][0] for p in per_sentence])
        check_eq(set(got), set(expected), "names of features")
        for key in expected:
            check(equal(got[key], expected[key]), "batch of " + key, got[key], expected[key])
            if key != "length":
                check_eq(dims(got[key], 2)[:2], [len(batch), max(lengths)], "size of the batch of " + key)
        if "length" in got:
            check_eq(got["length"], [s.tokens_count for s in batch], "sentence lengths")
        # sparsification (features only)
        rate = case["rate"]
        random.seed(len(picks))
        sparse = {key: features.plain(v) for key, v in extract.get_features(batch, sparse_rate=rate).items()}
        check_eq(set(sparse), set(extract.get_features(batch)), "names of features with sparsification")
        for key, value in sparse.items():
            if key in SPARSE:
                compare_sparse(value, expected[key], rate, key, batch)
            else:
                check(equal(value, expected[key]), "feature which is not sparsified: " + key)
        again = {key: features.plain(v) for key, v in extract.get_features(batch).items()}
        for key in again:
            check(equal(again[key], expected[key]), "features extracted again: " + key)
    check_eq([docs.view(d) for d in documents], before, "documents")
    # duplicate names
    if case["duplicate"] % 3 == 1:
        pool = [n for n in case["names"] if n != "rules"]
        if pool:
            name = pool[case["duplicate"] % len(pool)]
            rejected(lambda: providers(case["names"] + [name], *files), dataset, batch, "the name {} twice".format(name))
    ctx.label("rate {}".format(case["rate"]))


def rejected(make, dataset, batch, what):
    try:
        e, l, _, init = features.assemble(make(), dataset)
        init.shapes()
        e.get_features(batch)
        l.get_features(batch)
    except ValueError:
        return
    check(False, "accepted: " + what)


def leaves(value, other):
    if isinstance(other, list):
        check(isinstance(value, list) and len(value) == len(other), "shape changed by sparsification", value, other)
        for v, o in zip(value, other):
            for pair in leaves(v, o):
                yield pair
    else:
        yield value, other


def compare_sparse(value, original, rate, key, batch):
    for (s, sentence), values, olds in zip(enumerate(batch), value, original):
        for t in range(len(olds)):
            real = t < sentence.tokens_count
            for v, o in leaves(values[t], olds[t]):
                check(v == o or (v == OOV and real), "value changed by sparsification", key, v, o)
                if rate == 0:
                    check_eq(v, o, "value at rate 0 of " + key)
                # a padding inside of a token is added after sparsification
                if rate == 1 and real and o != PADDING:
                    check_eq(v, OOV, "value at rate 1 of " + key)
    check_eq(len(value), len(original), "number of sentences with sparsification")


# ------------------------------------------------------------------ composition of toy features

class Toy(fb.FeatureExtractorBuilder):
    """feature of the given rank computed from the object's own number; the label side counts interpretations"""

    def __init__(self, name, rank, salt, shape):
        self.args = (name, rank, salt)
        self.name, self.shape = name, shape

    def build(self, dataset):
        return ToyExtractor(*self.args), ToyInterpreter(self.name), fb.ConstantFeatureInitializer(self.name, self.shape)


class ToyExtractor(fb.FeatureExtractorInterface):
    def __init__(self, name, rank, salt):
        self.args = (name, rank, salt)

    def get_features(self, obj, **kwargs):
        name, rank, salt = self.args
        return {name: toy(obj, rank, salt)}


class ToyInterpreter(fb.InterpreterInterface):
    def __init__(self, name):
        self.name = name

    def interpret(self, obj, value):
        return obj + [(self.name, value[self.name])] if isinstance(obj, list) else [obj, (self.name, value[self.name])]


def toy(number, rank, salt):
    if rank == 0:
        return (number * 31 + salt) % 17 + 5
    n = (number * 7 + salt * 3 + rank) % (4 if rank == 1 else 3)
    if rank > 1 and n == 0:
        n = 1
    return [toy(number + k + 1, rank - 1, salt + k) for k in range(n)]


@st.composite
def compositions(draw):
    n = draw(st.integers(1, 7))
    toys = [[draw(st.integers(0, 2)), draw(st.integers(0, 9)), draw(st.sampled_from(["word", "word", "sparse", "sentence"]))] for _ in range(n)]
    return {"toys": toys, "groups": draw(st.lists(st.integers(0, 3), min_size=n, max_size=n)), "how": draw(st.lists(st.sampled_from(["merge", "composite", "merge", "single"]), min_size=4, max_size=4)),
            "outer": draw(st.sampled_from(["merge", "composite", "double"])), "empty": draw(st.integers(0, 2)), "duplicate": draw(st.integers(0, 6)) == 4,
            "batch": draw(st.lists(st.lists(st.integers(0, 50), min_size=1, max_size=5), min_size=1, max_size=4)), "rate": draw(st.sampled_from([0, 1, 0.5]))}


class Numbers(list):
    """sentence of numbers"""

    def __hash__(self):
        return hash(tuple(self))

    def __mul__(self, k):
        return sum(self) * k

    def __add__(self, k):
        return sum(self) + k


def run_composition(case, ctx):
    groups = {}
    names = []
    for i, ((rank, salt, kind), g) in enumerate(zip(case["toys"], case["groups"])):
        name = "f{}".format(i if not (case["duplicate"] and i == 1) else 0)
        names.append(name)
        inner = Toy(name, rank, salt, [i])
        if kind == "sentence":
            builder = fb.wrap_sentence_level(inner)
        else:
            builder = fb.wrap_word_level(inner, kind == "sparse")
        groups.setdefault(g, []).append(builder)
    parts = []
    for g, builders in sorted(groups.items()):
        how = case["how"][g]
        if how == "merge":
            parts.append(fb.merge(iter(builders)))
        elif how == "composite":
            parts.append(fb.CompositeFeatureExtractorBuilder(builders))
        else:
            parts.extend(builders)
    parts.extend([fb.EmptyFeatureExtractorBuilder()] * case["empty"])
    if case["outer"] == "composite":
        built = fb.CompositeFeatureExtractorBuilder(parts)
    elif case["outer"] == "double":
        built = fb.merge([fb.merge(iter(parts))] + [fb.EmptyFeatureExtractorBuilder()])
    else:
        built = fb.merge(iter(parts))
    batch = [Numbers(s) for s in case["batch"]]

    def extract(**kwargs):
        extractor, interpreter, initializer = built.build([])
        return extractor.get_features(batch, **kwargs), initializer.shapes(), interpreter

    if case["duplicate"] and len(names) > 1:
        ctx.label("duplicate")
        try:
            got = extract()
        except ValueError:
            return
        check(False, "two features of the same name are accepted", got)
    got, shapes, interpreter = extract()
    ctx.nontrivial(len({len(s) for s in batch}) > 1 and len(names) > 1)
    expected = {}
    for i, (rank, salt, kind) in enumerate(case["toys"]):
        if kind == "sentence":
            rows = [toy_sentence(s, rank, salt) for s in batch]
            shape = [len(batch)] + [max(dims(r, rank)[l] for r in rows) for l in range(rank)]
        else:
            rows = [[toy(x, rank, salt) for x in s] for s in batch]
            shape = [len(batch)] + [max(dims(r, rank + 1)[l] for r in rows) for l in range(rank + 1)]
        expected["f{}".format(i)] = padded(rows, shape)
    check_eq(features.plain_dict(got), expected, "combined features")
    check_eq(dict(shapes), {"f{}".format(i): [i] for i in range(len(names))}, "announced shapes")
    sparse = features.plain_dict(extract(sparse_rate=case["rate"])[0])
    for i, (rank, salt, kind) in enumerate(case["toys"]):
        key = "f{}".format(i)
        if kind == "sparse":
            class S(object):
                def __init__(self, n):
                    self.tokens_count = n
            compare_sparse(sparse[key], expected[key], case["rate"], key, [S(len(s)) for s in batch])
        else:
            check_eq(sparse[key], expected[key], "feature which is not sparsified")
    if all(kind != "sentence" for _, _, kind in case["toys"]):
        # every token is interpreted with its own values, once per feature
        ctx.label("interpreted")
        result = interpreter.interpret([list(s) for s in batch], got)
        check_eq([len(s) for s in result], [len(s) for s in batch], "interpreted tokens")
        for s, sentence in enumerate(batch):
            for t, number in enumerate(sentence):
                out = result[s][t]
                check(isinstance(out, list) and out[0] == number, "interpretation of another token", out, number)
                check_eq(sorted((n, features.plain(v)) for n, v in out[1:]), sorted((n, v[s][t]) for n, v in expected.items()), "interpreted values")


def toy_sentence(s, rank, salt):
    return toy(s, rank, salt)


@st.composite
def rates(draw):
    return {"rate": draw(st.sampled_from([0.05, 0.2, 0.5, 0.8, 0.95])), "seed": draw(st.integers(0, 10 ** 6)), "rank": draw(st.integers(0, 1))}


def run_rate(case, ctx):
    extractor, _, _ = fb.wrap_word_level(Toy("f", case["rank"], 1, [1]), True).build([])
    random.seed(case["seed"])
    batch = [Numbers(range(i, i + 60)) for i in range(200)]
    plain = features.plain(extractor.get_features(batch)["f"])
    sparse = features.plain(extractor.get_features(batch, sparse_rate=case["rate"])["f"])
    pairs = [(v, o) for v, o in leaves(sparse, plain) if o != PADDING]
    share = sum(v == OOV for v, o in pairs) / len(pairs)
    # at least 12000 values: a deviation of 0.03 is more than 6 standard deviations (of rate 0.5)
    check(abs(share - case["rate"]) < 0.03, "share of replaced values", share, case["rate"], len(pairs))
    ctx.nontrivial()


CHECKS = [Check("batches", batches, run_batch, quick=2000, thorough=60000, chunk=50),
          Check("batches, large", lambda: batches("always"), run_batch, quick=48, thorough=1500, chunk=3),
          Check("composition", compositions, run_composition, quick=6000, thorough=200000, chunk=100),
          Check("rates", rates, run_rate, quick=80, thorough=2000, chunk=10)]
