import os

from hypothesis import strategies as st

from lib import gen, docs, conllu
from lib.core import Check, Violation, check, check_eq

from babylondigger.evaluation.conllu_io import CoNLLUReader
from babylondigger.evaluation.dataset import CoNLLUDataSet
from props.c06 import compare, expected

PROPERTY = "C07"
RULE = ("limits: a CoNLL-U text and two limits of sentences per document; non-trivial: more sentences than the smaller limit. cut: a text, a limit and a "
        "position where it ends; non-trivial: the cut is inside of a sentence. short: a text in which a sentence ends before all words of a multiword token are given; non-trivial: always, if "
        "there is a multiword token. iterate: interleaved iterations over one data set; non-trivial: "
        "an iteration starts before another one ends and there are at least two documents")
ASSUMPTIONS = ["a sentence of which only comments or empty nodes are left may be reported or ignored"]

FULL = set("LUXFD")


@st.composite
def limits(draw, big=True):
    if draw(st.integers(0, 15)) == 0:
        spec = draw(gen.documents(n_sents=(49, 51, 101), max_tokens=(1, 3), pool_size=2))
    else:
        spec = draw(gen.documents(n_sents=(1, 8, 40), max_tokens=(3, 10), pool_size=3, big=big))
    return {"spec": spec, "deco": draw(conllu.decorations()),
            "limit": draw(st.one_of(st.integers(1, 8), st.integers(1, 60))), "limit2": draw(st.integers(1, 12))}


def run_limits(case, ctx):
    spec = case["spec"]
    text = conllu.render(spec, case["deco"])
    n = len(spec["sents"])
    ctx.label("n % limit == 0", n and n % case["limit"] == 0)
    ctx.label("several documents", n > case["limit"])
    ctx.label("multiple of the default limit", n and n % 50 == 0)
    ctx.nontrivial(n > min(case["limit"], case["limit2"]))
    for limit in (case["limit"], case["limit2"]):
        result = list(CoNLLUReader(limit).read_from_str(text))
        check_eq([d.sentences_count for d in result], [min(limit, n - i) for i in range(0, n, limit)], "number of sentences in documents, limit %d" % limit)
        compare(result, expected(spec, FULL, limit))
    check_eq([d.sentences_count for d in CoNLLUReader().read_from_str(text)], [min(50, n - i) for i in range(0, n, 50)], "default limit")


@st.composite
def cuts(draw):
    return {"spec": draw(gen.documents(n_sents=(1, 3, 8), max_tokens=(3, 8), pool_size=3)), "deco": draw(conllu.decorations()),
            "limit": draw(st.integers(1, 4)), "cut": draw(st.integers(0, 100000)), "kind": draw(st.sampled_from(["char", "line", "line", "boundary", "column"])),
            "file": draw(st.booleans())}


def run_cut(case, ctx):
    spec, deco, limit = case["spec"], case["deco"], case["limit"]
    eol = deco["eol"]
    sents = conllu.lines(spec, deco)
    pieces = []  # (text, kind, sentence number)
    for si, s in enumerate(sents):
        for kind, line in s:
            pieces.append(((line if kind == "comment" else "\t".join(line)) + eol, kind, si))
        pieces.append((eol, "end", si))
    full = "".join(p[0] for p in pieces)
    if not full:
        return
    # position of the cut
    ends = []
    at = 0
    for p in pieces:
        at += len(p[0])
        ends.append(at)
    if case["kind"] == "char":
        cut = case["cut"] % (len(full) + 1)
    elif case["kind"] == "line":
        cut = ends[case["cut"] % len(ends)]
    elif case["kind"] == "boundary":  # the line break is lost
        cut = ends[case["cut"] % len(ends)] - len(eol)
    else:
        tabs = [i for i, c in enumerate(full) if c == "\t"] or [0]
        cut = tabs[case["cut"] % len(tabs)] + case["cut"] % 2
    prefix = full[:cut]
    if prefix.endswith("\r"):
        prefix = prefix[:-1]
        cut -= 1
    # complete sentences, and whether a part of a word of the next one is left
    complete, words_left, at = 0, False, 0
    dubious = False
    for text, kind, si in pieces:
        start, at = at, at + len(text)
        if kind == "end":
            if at <= cut:
                complete, words_left, dubious = complete + 1, False, False
        elif kind in ("word", "range"):
            words_left |= start < cut
        elif start < cut and kind == "empty":
            dubious = True
    must_raise = words_left
    ctx.label("inside of a sentence", must_raise)
    ctx.label("between sentences", not must_raise)
    ctx.label("cut:" + case["kind"])
    ctx.nontrivial(must_raise)
    reader = CoNLLUReader(limit)
    if case["file"]:
        path = os.path.join(ctx.scratch(), "cut.conllu")
        with open(path, "w", encoding="utf-8", newline="") as f:
            f.write(prefix)
        docs_iter = reader.read_from_file(path)
    else:
        docs_iter = reader.read_from_str(prefix)
    result, error = [], None
    try:
        for d in docs_iter:
            result.append(d)
    except Exception as e:
        error = e
    exp = expected({"sents": spec["sents"][:complete]}, FULL, limit)
    if must_raise:
        check(error is not None, "input which ends inside of a sentence is read without an error", repr(prefix[-200:]))
        exp = exp[:complete // limit]
    elif error is not None:
        check(dubious, "input which ends between sentences is rejected: %r" % error)
        exp = exp[:complete // limit]
    compare(result, exp)


@st.composite
def shorts(draw):
    return {"spec": draw(gen.documents(n_sents=(1, 3, 6), max_tokens=(3, 6), pool_size=3)), "deco": draw(conllu.decorations()),
            "limit": draw(st.integers(1, 4)), "tok": draw(st.integers(0, 999)), "left": draw(st.integers(0, 5)), "tree": draw(st.integers(0, 3)) == 3}


def run_short(case, ctx):
    spec, deco, limit = case["spec"], case["deco"], case["limit"]
    places = [(si, ti) for si, s in enumerate(spec["sents"]) for ti, t in enumerate(s["toks"]) if t["mwt"]]
    if not places:
        return
    si, ti = places[case["tok"] % len(places)]
    if not case["tree"]:
        for w in gen.words_of(spec["sents"][si]):
            w["h"] = None
    before = sum(len(t["words"]) for t in spec["sents"][si]["toks"][:ti])
    k = len(spec["sents"][si]["toks"][ti]["words"])
    left = before + case["left"] % k  # words of the sentence which are left
    sents = conllu.lines(spec, deco)
    kept, n = [], 0
    for kind, line in sents[si]:
        if kind == "word":
            n += 1
            if n > left:
                break
        kept.append((kind, line))
    if not any(kind == "range" and int(line[0].split("-")[0]) == before + 1 for kind, line in kept):
        return
    sents[si] = kept
    text = "".join("".join((line if kind == "comment" else "\t".join(line)) + deco["eol"] for kind, line in s) + deco["eol"] for s in sents)
    ctx.label("sentences follow", si + 1 < len(sents))
    ctx.label("some words left", left > before)
    ctx.nontrivial()
    result, error = [], None
    try:
        for d in CoNLLUReader(limit).read_from_str(text):
            result.append(d)
    except Exception as e:
        error = e
    check(error is not None, "sentence which ends inside of a multiword token is read without an error", repr(text[:500]))
    compare(result, expected({"sents": spec["sents"][:si]}, FULL, limit)[:si // limit])


@st.composite
def iterations(draw, big=True):
    return {"spec": draw(gen.documents(n_sents=(1, 5, 12), max_tokens=(3, 8), pool_size=3, big=big)), "deco": draw(conllu.decorations()), "limit": draw(st.integers(1, 3)),
            "ops": draw(st.lists(st.tuples(st.sampled_from(["start", "next", "next", "next", "drop"]), st.integers(0, 20)), max_size=40))}


def run_iterations(case, ctx):
    path = os.path.join(ctx.scratch(), "in.conllu")
    with open(path, "w", encoding="utf-8", newline="") as f:
        f.write(conllu.render(case["spec"], case["deco"]))
    dataset = CoNLLUDataSet(path, CoNLLUReader(case["limit"]))
    exp = expected(case["spec"], FULL, case["limit"])
    active = []
    overlapped = False
    for op, k in case["ops"] + [["start", 0]]:
        if op == "start" or not active:
            overlapped |= bool(active)
            active.append([iter(dataset), []])
        elif op == "next":
            it, got = active[k % len(active)]
            d = next(it, None)
            if d is None:
                check_eq(len(got), len(exp), "number of documents in an iteration")
            else:
                got.append(d)
                check(len(got) <= len(exp), "too many documents")
                compare(got[-1:], exp[len(got) - 1:len(got)])
        else:
            active.pop(k % len(active))
    ctx.nontrivial(overlapped and len(exp) > 1)
    for it, got in active:
        got.extend(it)
        compare(got, exp)
    compare(list(dataset), exp)


CHECKS = [
    Check("limits", limits, run_limits, quick=2500, thorough=80000, chunk=50),
    Check("limits, large", lambda: limits("always"), run_limits, quick=60, thorough=2000, chunk=4),
    Check("iterate, large", lambda: iterations("always"), run_iterations, quick=40, thorough=1500, chunk=4),
    Check("cut", cuts, run_cut, quick=8000, thorough=300000, chunk=100),
    Check("short", shorts, run_short, quick=1500, thorough=50000, chunk=50),
    Check("iterate", iterations, run_iterations, quick=1500, thorough=50000, chunk=50),
]
