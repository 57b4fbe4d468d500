import tempfile
import os

from hypothesis import strategies as st

import ufal.udpipe as ud

from lib import docs, gen
from lib.core import Check, HarnessError, check, check_eq
from babylondigger.datamodel import Document, Sentence, Token, TokenExtras
from babylondigger.wrappers import udpipe1_2

PROPERTY = "C24"
RULE = ("cases are sequences of documents with multiword tokens and partial annotation, a processor (tagger, parser, both), and what the model assigns to each word (scripted), "
        "or documents processed by a real UDPipe model that was trained by the check; non-trivial: at least two sentences and two different annotations assigned")
ASSUMPTIONS = ["words contain no NUL character (UDPipe's interface cuts words there)", "names and values of features contain neither '=' nor '|' (UDPipe's notation of features)",
               "the scripted model changes only what a real one does: tag sets lemma, tags and features; parse sets head and relation"]

PROCESSORS = {"tagger": udpipe1_2.UDPipeTagger, "parser": udpipe1_2.UDPipeParser, "both": udpipe1_2.UDPipeTaggerParser}


def no_nul(spec):
    for s in spec["sents"]:
        for t in s["toks"]:
            for w in t["words"]:
                w["t"] = w["t"].replace("\0", "0")
            t["form"] = t["form"].replace("\0", "0")
    return spec


@st.composite
def assigned(draw):
    value = gen.values()
    return {"l": draw(gen.optional(value)), "u": draw(gen.optional(value)), "x": draw(gen.optional(value, 2)), "f": draw(gen.feats())}


@st.composite
def cases(draw):
    documents = draw(st.lists(gen.documents(n_sents=(1, 3, 6), max_tokens=(4, 10), pool_size=4, big=True), min_size=1, max_size=3))
    for d in documents:
        no_nul(d)
    pool = draw(st.lists(assigned(), min_size=1, max_size=4))
    deprels = draw(st.lists(st.one_of(st.sampled_from(["root", "nsubj", "", "det"]), gen.values()), min_size=1, max_size=3))
    return {"documents": documents, "pool": pool, "deprels": deprels, "kind": draw(st.sampled_from(sorted(PROCESSORS))), "codes": draw(st.lists(st.integers(0, 10 ** 6), min_size=1, max_size=12)),
            "options": draw(st.sampled_from(["", "", "beam_search=3", "x"])), "bare": draw(st.integers(0, 9)) == 7, "extras": draw(st.booleans()),
            "entry": draw(st.booleans())}


def feats_string(feats):
    return "|".join("{}={}".format(k, v) for k, v in feats.items())


def feats_dict(string):
    return dict(entry.split("=") for entry in string.split("|")) if string else {}


class Scripted(object):
    """stand-in for ud.Model"""

    def __init__(self, case):
        self.case = case
        self.calls = []
        self.number = 0

    def _code(self):
        self.number += 1
        return self.case["codes"][self.number % len(self.case["codes"])] + self.number

    @staticmethod
    def _words(sentence):
        words = list(sentence.words)[1:]
        return [{"t": w.form, "l": w.lemma, "u": w.upostag, "x": w.xpostag, "f": w.feats, "h": w.head, "d": w.deprel} for w in words]

    def tag(self, sentence, options, *rest):
        given = self._words(sentence)
        for w in list(sentence.words)[1:]:
            a = self.case["pool"][self._code() % len(self.case["pool"])]
            w.lemma, w.upostag, w.xpostag, w.feats = a["l"] or "", a["u"] or "", a["x"] or "", feats_string(a["f"])
        self.calls.append(("tag", options, given, self._words(sentence)))
        return True

    def parse(self, sentence, options, *rest):
        given = self._words(sentence)
        heads = gen.tree_from_codes([self._code() for _ in given])
        if self.case["bare"]:
            heads = [None] * len(given)
        for i, h in enumerate(heads, 1):
            if h is not None:
                sentence.setHead(i, h, self.case["deprels"][self._code() % len(self.case["deprels"])])
        self.calls.append(("parse", options, given, self._words(sentence)))
        return True


def make(kind, options, model):
    cls = PROCESSORS[kind]
    return cls(model, options) if options else cls(model)


def load(kind, options, path):
    cls = PROCESSORS[kind]
    return cls.load_udpipe(path, options) if options else cls.load_udpipe(path)


def with_extras(document, on):
    if not on:
        return document
    tokens = [Token.with_extras(t, TokenExtras({"n": i})) if i % 2 else t for i, t in enumerate(document.tokens)]
    return Document.from_document(document, tokens)


def method(processor, kind, alias):
    if not alias:
        return processor.process
    return processor.tag if kind == "tagger" else processor.parse


def as_result(view_token, words):
    new = dict(view_token)
    new["lemma"] = words["l"] or None
    new["has_pos"] = bool(words["u"] or words["x"] or words["f"])
    new["pos"] = (words["u"] or None, words["x"] or None, feats_dict(words["f"]))
    new["head"] = words["h"] if words["h"] >= 0 else None
    new["deprel"] = words["d"] or None
    return new


def run(case, ctx):
    for d in case["documents"]:
        for i, w in enumerate(w for s in d["sents"] for w in gen.words_of(s)):
            if i % 2:  # the order in which features are given does not matter
                w["f"] = dict(reversed(list(w["f"].items())))
    documents = [with_extras(docs.build(d), case["extras"]) for d in case["documents"]]
    before = [docs.view(d) for d in documents]
    model = Scripted(case)
    processor = make(case["kind"], case["options"], model)
    results = list(method(processor, case["kind"], case["entry"])(iter(documents)))
    check_eq(len(results), len(documents), "number of documents")
    expected_calls = {"tagger": ["tag"], "parser": ["parse"], "both": ["tag", "parse"]}[case["kind"]]
    calls = model.calls
    per_sentence = []
    sentences = [s for v in before for s in v["sents"]]
    check_eq([c[0] for c in calls], expected_calls * len(sentences), "what was asked of the model")
    check_eq({c[1] for c in calls} - {case["options"]}, set(), "options given to the model")
    notations = {}
    for k, sentence in enumerate(sentences):
        group = calls[k * len(expected_calls):(k + 1) * len(expected_calls)]
        given = group[0][2]
        check_eq([w["t"] for w in given], [t["text"] for t in sentence], "words given to the model")
        check_eq([w["l"] or None for w in given], [t["lemma"] or None for t in sentence], "lemmas given to the model")
        check_eq([w["u"] or None for w in given], [t["pos"][0] or None for t in sentence], "universal tags given to the model")
        check_eq([w["x"] or None for w in given], [t["pos"][1] or None for t in sentence], "language tags given to the model")
        check_eq([feats_dict(w["f"]) for w in given], [t["pos"][2] for t in sentence], "features given to the model")
        for w, t in zip(given, sentence):
            # models know features by their notation: equal features have to be given in one way
            notation = notations.setdefault(tuple(sorted(t["pos"][2].items())), w["f"])
            check_eq(w["f"], notation, "notation of equal features")
        if len(group) == 2:
            check_eq(group[1][2], group[0][3], "words given to the model for parsing after tagging")
        per_sentence.append(group[-1][3])
    at = 0
    for got, v in zip(results, before):
        want = {"text": v["text"], "sents": []}
        for s in v["sents"]:
            want["sents"].append([as_result(t, w) for t, w in zip(s, per_sentence[at])])
            at += 1
        check_eq(docs.view(got), want, "result")
    check_eq([docs.view(d) for d in documents], before, "input documents")
    different = {repr(w) for words in per_sentence for w in words}
    ctx.nontrivial(len(sentences) > 1 and len(different) > 1)
    ctx.label(case["kind"])
    ctx.label("multiword", any(t["mwt"] for s in sentences for t in s))
    ctx.label("options", case["options"] != "")


# ------------------------------------------------------------------ a real model

_MODEL = []

LEXICON = [("the", "the", "DET", "DT", ""), ("a", "a", "DET", "DT", ""), ("dog", "dog", "NOUN", "NN", "Number=Sing"), ("dogs", "dog", "NOUN", "NNS", "Number=Plur"),
           ("run", "run", "VERB", "V", "Tense=Pres|VerbForm=Fin"), ("ran", "run", "VERB", "V", "Tense=Past|VerbForm=Fin"), ("fast", "fast", "ADV", "", ""), (".", ".", "PUNCT", "", "")]
PATTERNS = [([0, 3, 4, 7], [2, 3, 0, 3], ["det", "nsubj", "root", "punct"]), ([1, 2, 5, 6, 7], [2, 3, 0, 3, 3], ["det", "nsubj", "root", "advmod", "punct"]),
            ([5, 0, 2], [0, 3, 1], ["root", "det", "obj"]), ([3, 4], [2, 0], ["nsubj", "root"])]


def real_model():
    if not _MODEL:
        sentences = ud.Sentences()
        for words, heads, deprels in PATTERNS * 4:
            s = ud.Sentence()
            for i in words:
                w = s.addWord(LEXICON[i][0])
                w.lemma, w.upostag, w.xpostag, w.feats = LEXICON[i][1:]
            for i, (h, d) in enumerate(zip(heads, deprels), 1):
                s.setHead(i, h, d)
            sentences.append(s)
        error = ud.ProcessingError()
        fd, path = tempfile.mkstemp(suffix=".udpipe")
        saved = os.dup(2)
        with open(os.devnull, "w") as null:
            os.dup2(null.fileno(), 2)
            try:
                data = ud.Trainer.train("morphodita_parsito", sentences, ud.Sentences(), ud.Trainer.NONE, "iterations=3",
                                        "iterations=2;embedding_upostag=4;embedding_feats=4;embedding_form=4;embedding_deprel=4;hidden_layer=8", error)
            finally:
                os.dup2(saved, 2)
                os.close(saved)
        with os.fdopen(fd, "wb") as f:
            f.write(data)
        _MODEL.append(ud.Model.load(path))
        _MODEL.append(data)
        os.remove(path)
        if error.occurred() or _MODEL[0] is None:
            raise HarnessError("UDPipe model could not be trained: " + error.message)
    return _MODEL[0]


@st.composite
def real_cases(draw):
    pool = draw(st.lists(st.one_of(st.sampled_from([w[0] for w in LEXICON]), gen.forms()), min_size=1, max_size=8))
    documents = draw(st.lists(gen.documents(n_sents=(1, 3, 6), max_tokens=(4, 10), pool_size=4, big=True), min_size=1, max_size=3))
    codes = draw(st.lists(st.integers(0, 10 ** 6), min_size=1, max_size=10))
    n = 0
    for d in documents:
        no_nul(d)
        for s in d["sents"]:
            for t in s["toks"]:
                for w in t["words"]:
                    n += 1
                    c = codes[n % len(codes)] + n
                    if c % 5:
                        w["t"] = pool[c % len(pool)].replace("\0", "0")
                        if c % 3:
                            e = next((e for e in LEXICON if e[0] == w["t"]), LEXICON[c % len(LEXICON)])
                            w.update(l=e[1], u=e[2], x=e[3], f=feats_dict(e[4]), p=True)
                if not t["mwt"]:
                    t["form"] = t["words"][0]["t"]
    return {"documents": documents, "kind": draw(st.sampled_from(sorted(PROCESSORS))), "entry": draw(st.booleans()), "options": draw(st.sampled_from(["", "beam_search=5"])),
            "load": draw(st.booleans())}


def run_real(case, ctx):
    model = real_model()
    documents = [docs.build(d) for d in case["documents"]]
    before = [docs.view(d) for d in documents]
    if case["load"]:
        path = os.path.join(ctx.scratch(), "model")
        with open(path, "wb") as f:
            f.write(_MODEL[1])
        processor = load(case["kind"], case["options"], path)
    else:
        processor = make(case["kind"], case["options"], model)
    results = list(method(processor, case["kind"], case["entry"])(iter(documents)))
    check_eq(len(results), len(documents), "number of documents")
    assigned_words = set()
    for got, v in zip(results, before):
        want = {"text": v["text"], "sents": []}
        for sentence in v["sents"]:
            own = ud.Sentence()
            for t in sentence:
                w = own.addWord(t["text"])
                w.lemma, w.upostag, w.xpostag = t["lemma"] or "", t["pos"][0] or "", t["pos"][1] or ""
                w.feats = "|".join(sorted(k + "=" + x for k, x in t["pos"][2].items()))
            if case["kind"] != "parser":
                model.tag(own, case["options"])
            if case["kind"] != "tagger":
                model.parse(own, case["options"])
            words = Scripted._words(own)
            assigned_words.update(map(repr, words))
            want["sents"].append([as_result(t, w) for t, w in zip(sentence, words)])
        check_eq(docs.view(got), want, "result")
    check_eq([docs.view(d) for d in documents], before, "input documents")
    ctx.nontrivial(sum(len(v["sents"]) for v in before) > 1 and len(assigned_words) > 1)
    ctx.label("real " + case["kind"])
    ctx.label("real, loaded", case["load"])


CHECKS = [Check("scripted", cases, run, quick=4000, thorough=150000, chunk=100),
          Check("real", real_cases, run_real, quick=1600, thorough=40000, chunk=100)]
