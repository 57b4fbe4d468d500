import os
import shutil
import tempfile

from hypothesis import strategies as st

import numpy as np

from lib import docs, gen, tdozat_fake as fake
from lib.core import Check, check, check_eq, check_raises
from babylondigger.datamodel import Document, Token, TokenExtras

PROPERTY = "C27"
RULE = ("cases are a parser or tagger with a set of input fields and extra outputs, and a history of calls (some failing in the middle, some after closing and opening again) with "
        "documents and what the external program gives out for each word; non-trivial: at least two sentences of different lengths and two different outputs")
ASSUMPTIONS = ["the external package is not installed: a stand-in with the same interface runs a small real network, distributes sentences to batches by length, counts an artificial root "
               "as position 0 and pads its arrays; sentences without words, which the wrapper hands over at the end of each document, are ignored by it"]


def setup():
    fake.install()


@st.composite
def cases(draw):
    kind = draw(st.sampled_from(["parser", "tagger"]))
    history = []
    for _ in range(draw(st.integers(1, 3))):
        documents = draw(st.lists(gen.documents(n_sents=(1, 4, 8), max_tokens=(4, 9), pool_size=4, big=True), min_size=0, max_size=3))
        history.append({"documents": documents, "fail": draw(st.sampled_from([None, None, None, 0, 1])), "reopen": draw(st.integers(0, 5)) == 3,
                        "again": draw(st.integers(0, 5)) == 2})
    if not any(c["documents"] for c in history):
        history[0]["documents"].append(draw(gen.documents(n_sents=(2, 4, 8), max_tokens=(4, 9), pool_size=4, big=True)))
    value = st.one_of(gen.values(allow_empty=False), st.just("_"))
    return {"kind": kind, "history": history, "inputs": draw(st.lists(st.sampled_from(["lemma", "upos", "xpos", "ufeats"]), unique=True, max_size=4)),
            "fields": {f: draw(st.lists(value, min_size=1, max_size=4)) for f in ("deprel", "upos", "xpos", "semrel")},
            "factorized": draw(st.booleans()), "more": ["semrel"] if draw(st.integers(0, 3)) == 2 else [],
            "codes": draw(st.lists(st.integers(0, 10 ** 4), min_size=1, max_size=10)), "batch": draw(st.sampled_from([1, 2, 3, 50])), "width": draw(st.integers(0, 1)),
            "extra": draw(st.booleans()), "flags": draw(st.integers(0, 7)), "extras": draw(st.booleans()), "entry": draw(st.booleans())}


def with_extras(doc, on):
    if not on:
        return doc
    return Document.from_document(doc, [Token.with_extras(t, TokenExtras({"n": i, "plain": "old"})) if i % 3 else t for i, t in enumerate(doc.tokens)])


_models = {}
_base = []


def model(kind):
    if kind not in _models:
        if not _base:
            _base.append(tempfile.mkdtemp(prefix="tdozat-"))
            import atexit
            atexit.register(shutil.rmtree, _base[0], True)
        folder = os.path.join(_base[0], kind)
        os.mkdir(folder)
        name = {"parser": "ParserNetwork", "tagger": "TaggerNetwork", "wrong": "TaggerNetwork"}[kind]
        fake.write_model(folder, name, "ParserNetwork.cfg" if kind == "wrong" else name + ".cfg")
        _models[kind] = folder
    return _models[kind]


def make(case):
    from babylondigger.wrappers import tdozat
    extra_fields = {"plain": ("plain",), "another": ("upos", "hidden_layer"), "nothing": ("zero",)} if case["extra"] else None
    expected = {"plain": 5, "another": 3, "nothing": None} if case["extra"] else {}
    flags = case["flags"]
    if case["kind"] == "parser":
        kwargs = {"parser_recur_layer": True} if flags & 1 else {}
        expected.update({"parser_recur_layer": 1} if flags & 1 else {})
        cls = tdozat.TDozatParser
    else:
        kwargs = {n: True for k, n in enumerate(["tagger_recur_layer", "upos_hidden", "xpos_hidden"]) if flags >> k & 1}
        expected.update({n: 2 + k for k, n in enumerate(["tagger_recur_layer", "upos_hidden", "xpos_hidden"]) if flags >> k & 1})
        cls = tdozat.TDozatTagger
    if extra_fields:
        kwargs["extra_fields"] = extra_fields
    return cls(model(case["kind"]), **kwargs), expected


def none(value):
    return None if value == "_" else value


def feats_dict(s):
    return {} if s == "_" else dict(e.split("=") for e in s.split("|"))


def check_given(given, sentences):
    check_eq(len(given), len(sentences), "number of sentences handed over")
    for lines, sentence in zip(given, sentences):
        check_eq([len(x) for x in lines], [10] * len(sentence), "columns of the words handed over")
        check_eq([x[0] for x in lines], [str(i) for i in range(1, len(sentence) + 1)], "numbers of the words handed over")
        check_eq([x[1] for x in lines], [t["text"] for t in sentence], "words handed over")
        check_eq([x[2] for x in lines], [t["lemma"] if t["lemma"] is not None else "_" for t in sentence], "lemmas handed over")
        check_eq([x[3] for x in lines], [t["pos"][0] if t["pos"][0] is not None else "_" for t in sentence], "universal tags handed over")
        check_eq([x[4] for x in lines], [t["pos"][1] if t["pos"][1] is not None else "_" for t in sentence], "language tags handed over")
        check_eq([feats_dict(x[5]) for x in lines], [t["pos"][2] for t in sentence], "features handed over")
        check_eq([x[6] for x in lines], ["_" if t["head"] is None else str(t["head"]) for t in sentence], "heads handed over")


def expected_word(case, t, number, i, heads, extras):
    """sentence number, position from 1"""
    c = fake.code(number, i)
    pick = lambda field: none(case["fields"][field][c % len(case["fields"][field])])
    inputs = case["inputs"]
    new = dict(t)
    del new["has_pos"]
    new["lemma"] = t["lemma"] if "lemma" in inputs else None
    upos = t["pos"][0] if "upos" in inputs else None
    xpos = t["pos"][1] if "xpos" in inputs else None
    feats = t["pos"][2] if "ufeats" in inputs else {}
    if case["kind"] == "tagger":
        upos, xpos = pick("upos"), pick("xpos")
        new["head"], new["deprel"] = None, None
    else:
        new["head"], new["deprel"] = heads[i - 1], pick("deprel")
    new["pos"] = (upos, xpos, feats)
    new["extras"] = dict(t["extras"])
    for name, k in extras.items():
        new["extras"][name] = [0.0 if k is None else c * fake.SAVED * fake.INITIAL + k] * 2
    return new


def comparable(view):
    out = {"text": view["text"], "sents": []}
    for s in view["sents"]:
        row = []
        for t in s:
            t = dict(t)
            del t["has_pos"]
            t["extras"] = {k: [float(x) for x in v] if isinstance(v, np.ndarray) else v for k, v in t["extras"].items()}
            row.append(t)
        out["sents"].append(row)
    return out


def run(case, ctx):
    fake.SCRIPT.clear()
    fake.SCRIPT.update(codes=case["codes"], fields=case["fields"], inputs=["id", "form"] + case["inputs"], heads=gen.tree_from_codes, batch=case["batch"], fail=None, log=[], width=case["width"],
                       factorized=case["factorized"], more=case["more"])
    processor, extras = make(case)
    outside = docs.build({"sents": []})
    check_raises(RuntimeError, lambda: list(processor.process(iter([outside]))), "used before it was opened")
    opened = processor.__enter__()
    different, lengths, failed = set(), set(), False
    try:
        for call in case["history"]:
            if call["reopen"]:
                processor.__exit__(None, None, None)
                check_raises(RuntimeError, lambda: list(processor.process(iter([outside]))), "used after it was closed")
                opened = processor.__enter__()
            documents = [with_extras(docs.build(d), case["extras"]) for d in call["documents"]]
            if call.get("again"):
                documents = documents + documents[:1]  # the same document twice
            before = [docs.view(d) for d in documents]
            sentences = [s for v in before for s in v["sents"]]
            batches = -(-len(sentences) // case["batch"])
            fake.SCRIPT["fail"] = call["fail"]
            fake.SCRIPT["log"] = []
            method = opened.process if case["entry"] else opened.parse if case["kind"] == "parser" else opened.tag
            if call["fail"] is not None and call["fail"] < batches:
                check_raises(fake.Failure, lambda: list(method(iter(documents))), "error of the external program")
                failed = True
                continue
            results = list(method(iter(documents)))
            check_eq(len(fake.SCRIPT["log"]), 1, "number of data sets handed over")
            check_given(fake.SCRIPT["log"][0], sentences)
            check_eq(len(results), len(documents), "number of documents")
            number = 0
            for got, v in zip(results, before):
                want = {"text": v["text"], "sents": []}
                for s in v["sents"]:
                    heads = gen.tree_from_codes([fake.code(number, j) for j in range(1, len(s) + 1)])
                    want["sents"].append([expected_word(case, t, number, i, heads, extras) for i, t in enumerate(s, 1)])
                    different.update(repr(t["head"]) + repr(t["pos"]) for t in want["sents"][-1])
                    lengths.add(len(s))
                    number += 1
                check_eq(comparable(docs.view(got)), want, "result")
            check_eq([docs.view(d) for d in documents], before, "input documents")
    finally:
        processor.__exit__(None, None, None)
    check_raises(RuntimeError, lambda: list(processor.process(iter([outside]))), "used after it was closed")
    ctx.nontrivial(len(different) > 1 and len(lengths) > 1)
    ctx.label(case["kind"])
    ctx.label("call after a failed one", failed)
    ctx.label("several batches", case["batch"] < 50)
    ctx.label("extras", bool(extras))



# ------------------------------------------------------------------ wrong models

@st.composite
def wrong_cases(draw):
    return {"what": draw(st.sampled_from(["network", "path"])), "path": draw(st.lists(st.sampled_from(["upos", "deptree", "recur_layer", "plain", "x", "hidden_layer"]), min_size=1, max_size=3)),
            "kind": draw(st.sampled_from(["parser", "tagger"]))}


def run_wrong(case, ctx):
    from babylondigger.wrappers import tdozat
    fake.SCRIPT.clear()
    fake.SCRIPT.update(inputs=["id", "form"], factorized=True, more=[])
    if case["what"] == "network":
        check_raises(ValueError, lambda: tdozat.TDozatParser(model("wrong")), "parser made of a tagging model")
        ctx.nontrivial()
        return
    path = tuple(case["path"])
    tensors = set(fake.EXTRA) | {("upos",), ("xpos",), ("deptree",)}
    cls = tdozat.TDozatParser if case["kind"] == "parser" else tdozat.TDozatTagger
    if path in tensors:
        cls(model(case["kind"]), extra_fields={"e": path})
        return
    check_raises(ValueError, lambda: cls(model(case["kind"]), extra_fields={"e": path}), "extra output which does not exist")
    ctx.nontrivial()


CHECKS = [Check("transfer", cases, run, quick=1600, thorough=40000, chunk=50),
          Check("wrong model", wrong_cases, run_wrong, quick=80, thorough=400, chunk=20)]
