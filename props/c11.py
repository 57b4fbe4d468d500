import itertools
import os
from copy import deepcopy

from hypothesis import strategies as st

from lib import gen, docs, conllu, udref, ud_official, fakes
from lib.core import Check, Violation, check, check_eq, check_raises

fakes.install()
from babylondigger.datamodel import Document, Token, Pos, Sentence
from babylondigger.evaluation.conll17_ud_eval import UDError
from babylondigger.evaluation.evaluation import DataSetTaggerTester, FileTaggerTester

PROPERTY = "C11"
RULE = ("cases are gold data (a CoNLL-U file or documents), the annotation a tagger assigns (in part different from gold) and how it is evaluated; "
        "non-trivial: at least three words, and prediction and gold differ in part")
ASSUMPTIONS = ["gold files have syntax in each sentence (required by the scorer)"]


@st.composite
def cases(draw, big=True):
    file = draw(st.booleans())
    spec_list = [draw(gen.documents(n_sents=(1, 3, 8), max_tokens=(4, 12), tree=True if file else None, pool_size=4, big=big))
                 for _ in range(1 if file else draw(st.integers(1, 3)))]
    return {"gold": spec_list, "file": file, "deco": draw(conllu.decorations()), "changes": draw(st.lists(st.integers(0, 999), min_size=1, max_size=12)),
            "kind": draw(st.sampled_from(["lazy", "eager", "generator", "ahead"])), "syntax": draw(st.sampled_from(["none", "gold", "other"])),
            "results": draw(st.booleans()), "name": draw(st.sampled_from(["r.conll", "a/b/r.conll", "params-0/1/epoch-0-dev.conll", "\u00e9 x/r"])),
            "again": draw(st.booleans()), "fail": draw(st.sampled_from([None, None, 0, 1, 2])), "first": draw(st.booleans()),
            "other": draw(st.sampled_from([None, None, "drop", "stop", "early", "double", "joined", "surface", "surface"])), "at": draw(st.integers(0, 3))}


def predict(spec, changes, syntax, offset):
    """the annotation that the tagger assigns"""
    spec = deepcopy(spec)
    k = offset
    for s in spec["sents"]:
        ws = gen.words_of(s)
        for i, w in enumerate(ws):
            c = changes[k % len(changes)] + k
            k += 1
            if c % 3 == 0:
                w["l"] = "p%d" % (c % 2)
            if c % 4 == 0 or not w["p"]:
                w["p"], w["u"] = True, "P%d" % (c % 2)
            if c % 5 == 0:
                w["x"] = None
            if c % 6 == 0:
                w["f"] = {"P": "1"}
        if syntax == "none":
            for w in ws:
                w["h"] = w["d"] = None
        elif syntax == "other" or ws[0]["h"] is None:
            for i, w in enumerate(ws):
                w["h"], w["d"] = (i, "det" if k % 2 else "obj")
    return spec, k


def with_placeholder(spec):
    spec = deepcopy(spec)
    for s in spec["sents"]:
        for k, w in enumerate(gen.words_of(s)):
            if w["h"] is None:
                w["h"], w["d"] = k, None
    return spec


PLAIN = {"comments": [], "empty": [], "misc": [0], "eol": "\n"}


class Failure(Exception):
    pass


class Failing(object):
    """fails at a document"""

    def __init__(self, tagger, at):
        self.tagger, self.at = tagger, at

    def tag(self, documents):
        return self.generate(self.tagger.tag(documents)) if self.tagger.kind != "eager" else list(self.generate(self.tagger.tag(documents)))

    process = tag

    def generate(self, documents):
        for i, d in enumerate(documents):
            if i == self.at:
                raise Failure()
            yield d


class Other(object):
    """gives out other documents: not as many, or with another segmentation"""

    def __init__(self, tagger, how, at):
        self.tagger, self.how, self.at = tagger, how, at

    def tag(self, documents):
        if self.how == "early":  # does not even ask for the other documents
            documents = itertools.islice(documents, self.at)
        return self.generate(self.tagger.tag(documents)) if self.tagger.kind != "eager" else list(self.generate(self.tagger.tag(documents)))

    process = tag

    def generate(self, documents):
        for i, d in enumerate(documents):
            if self.how in ("joined", "surface"):
                d = self.changed(d)
            elif i == self.at and self.how == "stop":
                return
            elif i == self.at and self.how == "drop":
                continue
            elif i == self.at:
                yield d
            yield d

    def changed(self, d):
        """sentences joined or multiword tokens as one word; without syntax"""
        tokens, lengths = [], []
        for s in d.sentences:
            n = len(tokens)
            for t in s.tokens:
                if self.how == "joined":
                    tokens.append(Token(t.start, t.end, t.pos, t.lemma, None, t.sub_index, t.text_replacement))
                elif t.sub_index == 0:
                    tokens.append(Token(t.start, t.end, t.pos, t.lemma))
            lengths.append(len(tokens) - n)
        if not tokens:
            return d
        cuts = [sum(lengths[:i]) for i in range(len(lengths) + 1)] if self.how == "surface" else [0, len(tokens)]
        return Document(d.text, tokens, [Sentence(a, b) for a, b in zip(cuts, cuts[1:])])


def other_specs(specs, how, at):
    result = []
    for i, spec in enumerate(specs):
        spec = deepcopy(spec)
        if how in ("joined", "surface"):
            for s in spec["sents"]:
                if how == "surface":
                    for t in s["toks"]:
                        if t["mwt"]:
                            t["mwt"], t["words"] = False, [dict(t["words"][0], t=t["form"])]
                for w in gen.words_of(s):
                    w["h"] = w["d"] = None
            if how == "joined" and spec["sents"]:
                spec["sents"] = [{"tree": False, "toks": [t for s in spec["sents"] for t in s["toks"]]}]
        elif i == at and how in ("stop", "early"):
            break
        elif i == at and how == "drop":
            continue
        elif i == at:
            result.append(spec)
        result.append(spec)
    return result


class Tagger(object):
    """assigns prepared annotation; keeps what it was given"""

    def __init__(self, specs, kind):
        self.specs, self.kind, self.received = specs, kind, []

    def tag(self, documents):
        del self.received[:]
        if self.kind == "eager":
            return [self.one(i, d) for i, d in enumerate(documents)]
        if self.kind == "ahead":
            documents = list(documents)
            for d in documents:
                self.received.append(d)
            return iter([self.annotate(i, d) for i, d in enumerate(documents)])
        if self.kind == "generator":
            return self.generate(documents)
        return map(lambda p: self.one(*p), enumerate(documents))

    process = tag

    def generate(self, documents):
        for i, d in enumerate(documents):
            yield self.one(i, d)

    def one(self, i, d):
        self.received.append(d)
        return self.annotate(i, d)

    def annotate(self, i, d):
        words = [w for s in self.specs[i]["sents"] for w in gen.words_of(s)]
        tokens = []
        for t, w in zip(d.tokens, words):
            t = Token.with_morphology(t, Pos(w["u"], w["x"], w["f"]), w["l"])
            t = Token.with_syntax(t, w["d"], head_sentence_index=w["h"] - 1) if w["h"] is not None else Token.with_syntax(t)
            tokens.append(t)
        return Document.from_document(d, tokens)


def compare(scores, expected):
    check_eq(set(scores), set(expected), "metrics")
    for m, e in expected.items():
        s = scores[m]
        got = (s.precision, s.recall, s.f1, s.aligned_accuracy or None)
        check(all((x is None and y is None) or (x is not None and y is not None and abs(x - y) < 1e-9) for x, y in zip(got, e[:3] + (e[3] or None,))),
              "score of the tagger", m, got, e)


def run(case, ctx):
    changes = case["changes"]
    gold_specs = case["gold"]
    if case["file"]:
        units = [{"sents": [s]} for s in gold_specs[0]["sents"]]  # one sentence per document
        gold_text = conllu.render(gold_specs[0], case["deco"])
    else:
        units = gold_specs
        gold_text = "".join(conllu.render(with_placeholder(s), PLAIN) for s in gold_specs)
    predicted, k = [], 0
    for u in units:
        p, k = predict(u, changes, case["syntax"], k)
        predicted.append(p)
    system_text = "".join(conllu.render(with_placeholder(p), PLAIN) for p in predicted)
    gold_ref, system_ref = udref.load(gold_text), udref.load(system_text)
    if gold_ref[0] != "ok" or system_ref[0] != "ok":
        # surface forms may be blank only inside of multiword tokens
        if "dubious" in (gold_ref[0], system_ref[0]):
            return
        raise AssertionError("harness: invalid data %r" % (gold_ref[1],))
    expected = ud_official.scores(gold_ref[1], system_ref[1])
    n = len(gold_ref[1]["words"])
    ctx.label("file" if case["file"] else "documents")
    ctx.label("results saved", case["file"] and case["results"])
    ctx.label("kind:" + case["kind"])
    ctx.nontrivial(n >= 3 and any(0 < expected[m][2] < 1 for m in ("UPOS", "XPOS", "Feats", "Lemmas")))

    scratch = ctx.scratch()
    tagger = Tagger(predicted, case["kind"])
    results = None
    if case["file"]:
        path = os.path.join(scratch, "gold.conllu")
        with open(path, "w", encoding="utf-8", newline="") as f:
            f.write(gold_text)
        results = os.path.join(scratch, "results") if case["results"] else None
        tester = FileTaggerTester(path, results) if results else FileTaggerTester(path)
    else:
        gold_docs = [docs.build(s) for s in gold_specs]
        before = [docs.view(d) for d in gold_docs]
        tester = DataSetTaggerTester(gold_docs)

    failing = case["fail"] if case["fail"] is not None and case["fail"] < len(units) else None

    def fail():
        """a tagger that fails: results saved before are kept"""
        ctx.label("failing tagger")
        def saved():
            return {os.path.join(r, f): open(os.path.join(r, f), "rb").read() for r, _, fs in os.walk(results) for f in fs} if results else None
        old = saved()
        check_raises(Failure, lambda: tester.test(Failing(tagger, failing), case["name"]), "failure of the tagger")
        check_eq(saved(), old, "saved results after a failed test")

    if failing is not None and case["first"]:
        fail()
    for round_no in range(2 if case["again"] else 1):
        compare(tester.test(tagger, case["name"]), expected)
        # what the tagger was given
        check_eq(len(tagger.received), len(units), "number of documents given to the tagger")
        for d, u in zip(tagger.received, units):
            given, exp = docs.view(d), docs.expected_view(u)
            check_eq(given["text"].rstrip(" "), exp["text"].rstrip(" "), "text given to the tagger")
            check_eq([len(s) for s in given["sents"]], [len(s) for s in exp["sents"]], "sentences given to the tagger")
            for gs, es in zip(given["sents"], exp["sents"]):
                for g, e in zip(gs, es):
                    for key in ("start", "end", "sub", "text", "doc_text", "mwt", "repl"):
                        check_eq(g[key], e[key], "token given to the tagger, " + key)
                    check(g["pos"] == (None, None, {}) and g["lemma"] is None and g["head"] is None and g["deprel"] is None,
                          "tagger sees gold annotation", g)
            for t in d.tokens:
                check(not t.has_head and t.deprel is None and t.lemma is None and (t.pos is None or docs.pos_tuple(t.pos) == (None, None, {})),
                      "tagger sees gold annotation", t)
        if results:
            saved = os.path.join(results, case["name"])
            check(os.path.isfile(saved), "results are not saved at the given place")
            with open(saved, encoding="utf-8", newline="") as f:
                kind, ref = udref.load(f.read())
            check_eq(kind, "ok", "saved results")
            check_eq([(w["span"], w["mwt"], w["cols"][1:8]) for w in ref["words"]],
                     [(w["span"], w["mwt"], w["cols"][1:8]) for w in system_ref[1]["words"]], "saved results")
            check_eq(ref["sentences"], system_ref[1]["sentences"], "sentences of saved results")
            files = [os.path.join(r, f) for r, _, fs in os.walk(results) for f in fs]
            check_eq(files, [saved], "files of saved results")
        if case["file"]:
            with open(path, encoding="utf-8", newline="") as f:
                check_eq(f.read(), gold_text, "gold file after the test")
        else:
            check_eq([docs.view(d) for d in gold_docs], before, "gold documents after the test")
        if failing is not None and not case["first"] and round_no == 0:
            fail()
    if case["other"]:
        # a tagger with other output is scored on this output as well: not at all if it consists of other characters
        how, at = case["other"], case["at"] % max(1, len(units))
        kind, ref = udref.load("".join(conllu.render(with_placeholder(p), PLAIN) for p in other_specs(predicted, how, at)))
        if kind != "ok":
            return
        try:
            scored = ud_official.scores(gold_ref[1], ref)
        except ud_official.UDError:
            scored = None
        ctx.label("other output: " + how + ("" if scored is not None else ", rejected"))
        if scored is None:
            check_raises(UDError, lambda: tester.test(Other(tagger, how, at), "other"), "output of other characters than the gold data")
        else:
            compare(tester.test(Other(tagger, how, at), "other"), scored)


CHECKS = [Check("test", cases, run, quick=3000, thorough=100000, chunk=50),
          Check("large", lambda: cases("always"), run, quick=80, thorough=1500, chunk=2)]
