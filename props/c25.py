from collections import Counter

from hypothesis import strategies as st

from lib import docs, gen
from lib.core import Check, check, check_eq
from babylondigger.datamodel import Document, Token, TokenExtras
from babylondigger.parser import ParserInterface, StubParser
from babylondigger.processor import DocumentComplexProcessor, DocumentProcessorInteface
from babylondigger.tagger import StubTagger, StubTaggerTrainer, TaggerInterface

PROPERTY = "C25"
RULE = ("cases are nested sequences of recording processors (1:1, dropping, repeating, stateful, failing, baseline ones) with documents and a number of results the consumer takes, "
        "and training and test data for the baselines; non-trivial: at least two processors that change something, or two documents of several sentences")
ASSUMPTIONS = ["processors produce their results lazily (as all of the project do but the wrapper of the external parser)", "the baseline tagger is trained on at least one token"]


class Failure(Exception):
    pass


# ------------------------------------------------------------------ composition

KINDS = ["mark", "drop", "twice", "count", "parse", "tag", "mark", "fail"]


@st.composite
def pipelines(draw):
    n_docs = draw(st.integers(0, 6))
    leaf = st.fixed_dictionaries({"kind": st.sampled_from(KINDS), "n": st.integers(0, 5)})
    tree = st.recursive(leaf, lambda inner: st.lists(inner, max_size=4), max_leaves=8)
    return {"docs": n_docs, "tree": draw(st.lists(tree, min_size=1, max_size=5)), "take": draw(st.integers(0, 9)), "rounds": draw(st.integers(1, 2)), "container": draw(st.sampled_from(["list", "tuple", "iterator", "generator"])),
            "error": draw(st.sampled_from([None, None, "block"])), "entered": draw(st.booleans())}


def document(number):
    text = "d{} x. y".format(number)
    return docs.build({"sents": [{"toks": [{"form": "d{}".format(number), "sp": True, "mwt": False, "words": [dict(t="", l="d{}".format(number), u="U", x=None, f={}, p=True)]},
                                           {"form": "x.", "sp": True, "mwt": False, "words": [dict(t="", l="", u="V", x=None, f={}, p=True)]}]},
                                 {"toks": [{"form": "y", "sp": False, "mwt": False, "words": [dict(t="", l="", u="V", x=None, f={}, p=True)]}]}]})


def marked(doc, mark):
    tokens = [Token.with_morphology(t, t.pos, (t.lemma or "") + mark) for t in doc.tokens]
    return Document.from_document(doc, tokens)


class Recording(object):
    """one of the processors, with its log"""

    def __init__(self, spec, number):
        self.spec, self.number = spec, number
        self.entered, self.exits, self.is_open = 0, [], False

    def _process(self, documents):
        kind, n = self.spec["kind"], self.spec["n"]
        for i, d in enumerate(documents):
            if kind == "mark":
                yield marked(d, "m{}".format(self.number))
            elif kind == "drop":
                if i % (n + 2) != 0:
                    yield marked(d, "d")
            elif kind == "twice":
                yield d
                yield marked(d, "t")
            elif kind == "count":
                yield marked(d, "c{}".format(i))
            elif kind == "fail":
                if i == n:
                    raise Failure(self.number)
                yield marked(d, "f")

    def __enter__(self):
        self.entered += 1
        self.is_open = True
        return self

    def __exit__(self, exc_type, exc_val, exc_tb):
        self.exits.append((exc_type, exc_val))
        self.is_open = False
        return self.spec["n"] == 2  # one processor cannot keep an error from the others and the caller


class Plain(Recording, DocumentProcessorInteface):
    def process(self, documents):
        return self._process(documents)


class Tagging(Recording, TaggerInterface):
    def tag(self, documents):
        return self._process(documents)


class Parsing(Recording, ParserInterface):
    def parse(self, documents):
        return self._process(documents)


class Baseline(Recording, DocumentProcessorInteface):
    def __init__(self, spec, number, inner):
        Recording.__init__(self, spec, number)
        self.inner = inner

    def process(self, documents):
        return self.inner.process(documents)


def assemble(tree, log, container):
    result = []
    for node in tree:
        if isinstance(node, list):
            result.append(assemble(node, log, container))
            continue
        number = len(log)
        if node["kind"] == "parse":
            p = Baseline(node, number, StubParser("d{}".format(number)))
        elif node["kind"] == "tag":
            p = Baseline(node, number, StubTagger(docs.make_pos(dict(p=True, u="T{}".format(number), x=None, f={}))))
        else:
            p = (Plain, Tagging, Parsing)[number % 3](node, number)
        log.append(p)
        result.append(p)
    if container == "tuple":
        result = tuple(result)
    elif container == "iterator":
        result = iter(result)
    elif container == "generator":
        result = (p for p in list(result))
    return DocumentComplexProcessor(result)


def source(n, consumed):
    for i in range(n):
        consumed[0] += 1
        yield document(i)


def stage(log, k, documents):
    """reference: processors applied one after another"""
    for p in log:
        documents = p.process(documents)
    return documents


def take(stream, consumed, limit):
    """-> [(view, number of inputs consumed so far)], error"""
    out = []
    try:
        while len(out) < limit:
            d = next(stream, None)
            if d is None:
                out.append((None, consumed[0]))
                break
            out.append((docs.view(d), consumed[0]))
    except Failure as e:
        return out, ("failed", e.args, consumed[0])
    return out, None


def flat(tree):
    result = []
    for node in tree:
        result.extend(flat(node) if isinstance(node, list) else [node])
    return result


def run_pipeline(case, ctx):
    reference = []
    assemble(case["tree"], reference, "list")
    log = []
    composite = assemble(case["tree"], log, case["container"])
    expected = []
    for _ in range(case["rounds"]):
        consumed = [0]
        expected.append(take(iter(stage(reference, 0, source(case["docs"], consumed))), consumed, case["take"]))
    results = []
    raised = None

    def use(processor):
        for _ in range(case["rounds"]):
            consumed = [0]
            stream = iter(processor.process(source(case["docs"], consumed)))
            if case["entered"]:
                check(all(p.is_open for p in log), "a processor is not open when documents are processed", [p.is_open for p in log])
            results.append(take(stream, consumed, case["take"]))
        if case["error"] == "block":
            raise Failure("block")

    try:
        if case["entered"]:
            with composite as inside:
                check_eq([p.entered for p in log], [1] * len(log), "how often each processor was opened")
                check_eq([len(p.exits) for p in log], [0] * len(log), "how often each processor was closed before the end")
                use(inside)
        else:
            use(composite)
    except Failure as e:
        raised = e
    check_eq(raised is not None and raised.args == ("block",), case["error"] == "block", "error of the block raised")
    check_eq(results, expected, "results, and inputs consumed before each of them")
    if case["entered"]:
        check_eq([p.entered for p in log], [1] * len(log), "how often each processor was opened")
        check_eq([len(p.exits) for p in log], [1] * len(log), "how often each processor was closed")
        for p in log:
            want = (None, None) if raised is None else (Failure, raised)
            check(p.exits[0][0] is want[0] and p.exits[0][1] is want[1], "what a processor was told on closing", p.exits[0], want)
    n = len(flat(case["tree"]))
    ctx.nontrivial(n > 1 and any(out for out, _ in results))
    ctx.label("nested", any(isinstance(t, list) for t in case["tree"]))
    ctx.label("one-shot container", case["container"] in ("iterator", "generator"))
    ctx.label("failing", any(e for _, e in results))
    ctx.label("empty", n == 0)
    ctx.label("stopped early", any(len(out) == case["take"] and out and out[-1][0] is not None for out, _ in results))


# ------------------------------------------------------------------ baselines

@st.composite
def baseline_cases(draw):
    make = gen.documents(n_sents=(1, 3, 6), max_tokens=(4, 10), pool_size=4, big=True)
    return {"train": draw(st.lists(make, min_size=1, max_size=3)), "test": draw(st.lists(make, min_size=1, max_size=3)),
            "deprel": draw(gen.optional(gen.values(), 2)), "explicit": draw(st.booleans()), "notation": draw(st.sampled_from(["sent", "doc", "both"])), "entry": draw(st.booleans()),
            "extras": draw(st.booleans()), "stop": draw(st.booleans())}


def with_extras(doc, on):
    if not on:
        return doc
    return Document.from_document(doc, [Token.with_extras(t, TokenExtras({"n": [i]})) if i % 3 else t for i, t in enumerate(doc.tokens)])


def lazily(function, documents, stop):
    consumed = [0]

    def feed():
        for d in documents:
            consumed[0] += 1
            yield d

    stream = iter(function(feed()))
    out = []
    for k in range(len(documents) - (1 if stop else 0)):
        out.append(next(stream))
        check(consumed[0] <= k + 1, "documents taken in advance", consumed[0], k + 1)
    if not stop:
        check_eq(list(stream), [], "additional documents")
    return out


def key(pos):
    return None if pos is None else (pos.upos, pos.xpos, tuple(sorted(pos.feats.items())))


def run_baseline(case, ctx):
    training = [docs.build(d, case["notation"]) for d in case["train"]]
    tests = [with_extras(docs.build(d, case["notation"]), case["extras"]) for d in case["test"]]
    before = [docs.view(d) for d in tests]
    counts = Counter()
    for d in case["train"]:
        for s in d["sents"]:
            for w in gen.words_of(s):
                counts[(w["u"], w["x"], tuple(sorted(w["f"].items()))) if w["p"] else None] += 1
    if counts:
        taggers = list(StubTaggerTrainer().train(iter(training) if case["entry"] else training))
        check_eq(len(taggers), 1, "number of trained taggers")
        tagger = taggers[0]
        tagged = lazily(tagger.tag if case["entry"] else tagger.process, tests, case["stop"])
        seen = set()
        for got, v in zip(tagged, before):
            out = docs.view(got)
            for s, sentence in zip(out["sents"], got.sentences):
                seen.update(key(t.pos) for t in sentence.tokens)
            want = {"text": v["text"], "sents": [[dict(t, lemma=t["text"], pos=None, has_pos=None) for t in s] for s in v["sents"]]}
            check_eq({"text": out["text"], "sents": [[dict(t, pos=None, has_pos=None) for t in s] for s in out["sents"]]}, want, "tagged document, apart from tags")
        check(len(seen) <= 1, "the baseline gives different tags", seen)
        top = max(counts.values())
        for p in seen:
            check(counts[p] == top, "the tag of the baseline is not the most frequent one", p, counts)
    parser = StubParser(case["deprel"]) if case["explicit"] else StubParser()
    deprel = case["deprel"] if case["explicit"] else None
    parsed = lazily(parser.parse if case["entry"] else parser.process, tests, case["stop"])
    for got, v in zip(parsed, before):
        want = {"text": v["text"], "sents": [[dict(t, head=i, deprel=deprel) for i, t in enumerate(s)] for s in v["sents"]]}
        check_eq(docs.view(got), want, "parsed document")
    check_eq([docs.view(d) for d in tests], before, "input documents")
    ctx.nontrivial(len(counts) > 1 and any(len(v["sents"]) > 1 for v in before))
    ctx.label("tie", bool(counts) and list(counts.values()).count(max(counts.values())) > 1)
    ctx.label("documents without sentences", any(not v["sents"] for v in before))
    ctx.label("multiword", any(t["mwt"] for v in before for s in v["sents"] for t in s))


CHECKS = [Check("pipeline", pipelines, run_pipeline, quick=4000, thorough=150000, chunk=100),
          Check("baselines", baseline_cases, run_baseline, quick=4000, thorough=150000, chunk=100)]
