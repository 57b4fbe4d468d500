from hypothesis import strategies as st

import numpy as np

from lib import docs, features, gen, neural_fake
from lib.core import Check, check, check_eq
from babylondigger.features.builder import FeatureExtractorInterface
from babylondigger.features.provider import PosDictExtractorProvider, LemmaDictExtractorProvider, LemmaTransformationExtractorProvider, LemmaCharExtractorProvider

PROPERTY = "C23"
RULE = ("cases are documents whose words all differ, label sets (tags in all modes, lemmas in all representations, or both), and a prediction for every word; non-trivial: "
        "at least two sentences of different lengths and at least two different predictions")
ASSUMPTIONS = ["the model is a stand-in which predicts as scripted for any batch of sentences"]


@st.composite
def cases(draw, big=True):
    documents = draw(st.lists(gen.documents(n_sents=(1, 4, 8), max_tokens=(5, 14), pool_size=4, big=big), min_size=1, max_size=4))
    n = 0
    for d in documents:
        for s in d["sents"]:
            for t in s["toks"]:
                for w in t["words"]:
                    w["t"] = "w{}{}".format(n, ["", "a", "s"][n % 3])
                    n += 1
                if not t["mwt"]:
                    t["form"] = t["words"][0]["t"]
    return {"documents": documents, "pos": draw(st.sampled_from([None, "pos_joint", "pos_XF", "pos_UXF", "pos_gran"])),
            "lemma": draw(st.sampled_from([None, "dict", "rules", "chars"])), "codes": list(draw(st.binary(min_size=max(n, 1) * 4, max_size=max(n, 1) * 4))),
            "salt": draw(st.integers(0, 5)), "order": draw(st.booleans()), "stop": draw(st.integers(0, 4)), "dtype": draw(st.sampled_from(["int32", "int64"]))}


TRAIN = [("ab", "NOUN", "NN", {"Case": "Nom", "Number": "Sing"}, "ab"), ("abs", "NOUN", "NNS", {"Case": "Acc"}, "ab"), ("was", "VERB", None, {}, "be"),
         ("w1s", None, "X", {"Number": "Sing"}, "w1"), ("a", "DET", "DT", {}, "a"), ("wa", "VERB", "VB", {"Tense": "Past"}, "w"), ("ab", "NOUN", "NN", {"Case": "Nom", "Number": "Sing"}, "ab")]


def train_document():
    return docs.build({"sents": [{"toks": [{"form": t, "sp": True, "mwt": False, "words": [dict(t=t, l=l, u=u, x=x, f=f, p=True)]} for t, u, x, f, l in TRAIN]}]})


_assembled = {}


def assembled(pos, lemma):
    key = (pos, lemma)
    if key not in _assembled:
        providers = []
        if pos:
            providers.append(PosDictExtractorProvider("pos", pos))
        if lemma == "dict":
            providers.append(LemmaDictExtractorProvider("lemma"))
        elif lemma == "rules":
            providers.append(LemmaTransformationExtractorProvider("applicable", "lemma", {"rules_threshold": 0}))
        elif lemma == "chars":
            providers.append(LemmaCharExtractorProvider("lemma", {"min_frequency": 1, "max_word_length": 4, "segmenter": "char"}))
        _, labels, interpreter, initializer = features.assemble(providers, features.DataSet([train_document()]))
        shapes = {k: list(v.values()) if isinstance(v, dict) else [v[0]] * 4 for k, v in initializer.shapes().items() if k in ("pos", "lemma")}
        # what each label means, found by decoding (checked by C17 and C18)
        _assembled[key] = interpreter, shapes
    return _assembled[key]


class Identity(FeatureExtractorInterface):
    """feature of a token: its number, padded in a batch"""

    def __init__(self):
        self.seen = []

    def get_features(self, obj, **kwargs):
        rows = [[int("".join(c for c in t.text if c.isdigit())) for t in s.tokens] for s in obj]
        self.seen.extend(x for r in rows for x in r)
        n = max(len(r) for r in rows)
        return {"id": [r + [10 ** 9] * (n - len(r)) for r in rows], "lengths": [len(r) for r in rows]}


class Scripted(object):
    def __init__(self, labels_of, names, dtype):
        self.labels_of, self.names, self.dtype = labels_of, names, dtype

    def predict(self, values):
        return {name: np.array([[self.labels_of(name, i) for i in row] for row in values["id"]], dtype=self.dtype) for name in self.names}

    def close(self):
        pass


def run(case, ctx):
    if not case["pos"] and not case["lemma"]:
        case = dict(case, pos="pos_UXF")
    interpreter, sizes = assembled(case["pos"], case["lemma"])
    names = sorted(sizes, reverse=case["order"])

    def labels_of(name, number):
        if number == 10 ** 9:
            return [0] * len(sizes[name])
        base = number * 4
        return [(case["codes"][(base + k) % len(case["codes"])] + number * case["salt"]) % size for k, size in enumerate(sizes[name])]

    documents = [docs.build(d) for d in case["documents"]]
    before = [docs.view(d) for d in documents]
    # reference: each token decoded alone
    expected = []
    for d, v in zip(documents, before):
        out = {"text": v["text"], "sents": []}
        number_of = lambda text: int("".join(c for c in text if c.isdigit()))
        for s, sentence in zip(v["sents"], d.sentences):
            row = []
            for t, token in zip(s, sentence.tokens):
                single = docs.build({"sents": [{"toks": [{"form": token.text, "sp": True, "mwt": False, "words": [dict(t=token.text, l=token.lemma, u=t["pos"][0], x=t["pos"][1], f=t["pos"][2], p=t["has_pos"])]}]}]})
                values = {name: [[labels_of(name, number_of(token.text))]] for name in names}
                decoded = list(interpreter.interpret(list(single.sentences), values)[0])[0]
                new = dict(t)
                if case["pos"]:
                    new["pos"], new["has_pos"] = docs.pos_tuple(decoded.pos), decoded.pos is not None
                if case["lemma"]:
                    new["lemma"] = decoded.lemma
                row.append(new)
            out["sents"].append(row)
        expected.append(out)
    extractor = Identity()
    tagger = neural_fake.neural_tagger().NeuralTagger(extractor, Scripted(labels_of, names, case["dtype"]), interpreter)
    consumed = []

    def source():
        for d in documents:
            consumed.append(d)
            yield d

    result = []
    stream = iter(tagger.tag(source()))
    check_eq(len(consumed), 0, "documents taken before anything was asked for")
    for k in range(len(documents)):
        if case["stop"] == 3 and k == len(documents) - 1:
            break
        result.append(next(stream))
        check(len(consumed) <= k + 1, "documents taken in advance", len(consumed), k + 1)
    else:
        check_eq(list(stream), [], "additional documents")
    for got, want in zip(result, expected):
        check_eq(docs.view(got), want, "tagged document")
    check_eq([docs.view(d) for d in documents], before, "input documents")
    # the same through the processor interface, documents in reverse
    again = list(tagger.process(iter(documents[::-1])))
    check_eq([docs.view(d) for d in again], expected[::-1], "documents tagged in reverse order")
    lengths = {len(s) for v in before for s in v["sents"]}
    ctx.nontrivial(len(lengths) > 1 and len({tuple(map(tuple, [labels_of(n, i) for n in names])) for i in range(8)}) > 1)
    ctx.label("tags and lemmas", bool(case["pos"] and case["lemma"]))
    ctx.label("empty document", any(not v["sents"] for v in before))
    ctx.label("multiword", any(t["mwt"] for v in before for s in v["sents"] for t in s))


CHECKS = [Check("tag", cases, run, quick=4000, thorough=120000, chunk=50),
          Check("large", lambda: cases("always"), run, quick=80, thorough=1500, chunk=2)]
