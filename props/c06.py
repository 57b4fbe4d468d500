import os
from copy import deepcopy

from hypothesis import strategies as st

from lib import gen, docs, conllu
from lib.core import Check, Violation, check, check_eq

from babylondigger.evaluation.conllu_io import CoNLLUReader
from babylondigger.evaluation.dataset import CoNLLUDataSet
from babylondigger.evaluation.conll17_ud_eval import LEMMA, UPOS, XPOS, FEATS, HEAD, DEPREL

PROPERTY = "C06"
RULE = ("cases are CoNLL-U texts rendered from generated sentences and decorated with comments, empty nodes, MISC and DEPS contents, and a selection of "
        "columns; non-trivial: at least three words and one of: multiword token, empty node, no space after, partial selection of columns, CRLF")
ASSUMPTIONS = ["SpaceAfter has the value No if present", "feature names and values contain no '=' and '|'", "comments precede the words of a sentence"]

COLS = {"L": LEMMA, "U": UPOS, "X": XPOS, "F": FEATS, "H": HEAD, "D": DEPREL}


@st.composite
def cases(draw, big=True):
    return {"spec": draw(gen.documents(n_sents=(1, 3, 8), max_tokens=(5, 25), big=big)), "deco": draw(conllu.decorations()),
            "cols": draw(st.one_of(st.none(), st.none(), st.lists(st.sampled_from("LUXFHD"), unique=True).map("".join))),
            "file": draw(st.sampled_from(["str", "file", "dataset"])), "limit": draw(st.sampled_from([1, 3, 50]))}


def expected(spec, cols, limit):
    sents = deepcopy(spec["sents"])
    for s in sents:
        for w in gen.words_of(s):
            if "L" not in cols:
                w["l"] = None
            if "U" not in cols:
                w["u"] = None
            if "X" not in cols:
                w["x"] = None
            if "F" not in cols:
                w["f"] = {}
            w["p"] = bool(set("UXF") & cols)
            if "H" not in cols and "D" not in cols:
                w["h"] = None
            if "D" not in cols:
                w["d"] = None
    return [docs.expected_view({"sents": sents[i:i + limit]}) for i in range(0, len(sents), limit)]


def same_token(actual, e):
    if actual == e:
        return True
    # no value in any of the columns: absent tag and empty tag mean the same
    return e["pos"] == (None, None, {}) and dict(actual, has_pos=True) == dict(e, has_pos=True)


def compare(result, exp):
    check_eq(len(result), len(exp), "number of documents")
    for i, (doc, e) in enumerate(zip(result, exp)):
        v = docs.view(doc)
        check_eq(v["text"], e["text"], "text of document %d" % i)
        check_eq([len(s) for s in v["sents"]], [len(s) for s in e["sents"]], "sentence sizes of document %d" % i)
        for vs, es in zip(v["sents"], e["sents"]):
            for a, b in zip(vs, es):
                if not same_token(a, b):
                    raise Violation("wrong token: {} instead of {}".format(a, b))


def run(case, ctx):
    spec, deco = case["spec"], case["deco"]
    text = conllu.render(spec, deco)
    feats = gen.doc_features(spec)
    ctx.labels |= feats
    n_words = sum(len(gen.words_of(s)) for s in spec["sents"])
    ctx.label("empty nodes", bool(deco["empty"]) and n_words > 0)
    sents = conllu.lines(spec, deco)
    inside = False
    for s in sents:
        left = 0
        for kind, line in s:
            if kind == "range":
                a, b = line[0].split("-")
                left = int(b) - int(a) + 1
            elif kind == "word" and left:
                left -= 1
            elif kind == "empty" and left:
                inside = True
    ctx.label("empty node inside of a multiword token", inside)
    ctx.label("CRLF", deco["eol"] == "\r\n")
    ctx.label("columns: " + ("default" if case["cols"] is None else "some"))
    ctx.nontrivial(n_words >= 3 and (bool({"mwt", "no space after"} & feats) or bool(deco["empty"]) or case["cols"] is not None or deco["eol"] != "\n"))
    cols = set("LUXFD" if case["cols"] is None else case["cols"])
    reader = CoNLLUReader(case["limit"]) if case["cols"] is None else CoNLLUReader(case["limit"], [COLS[c] for c in case["cols"]])
    exp = expected(spec, cols, case["limit"])
    if case["file"] == "str":
        compare(list(reader.read_from_str(text)), exp)
    else:
        path = os.path.join(ctx.scratch(), "in.conllu")
        with open(path, "w", encoding="utf-8", newline="") as f:
            f.write(text)
        if case["file"] == "dataset":
            compare(list(CoNLLUDataSet(path, reader)), exp)
            compare(list(CoNLLUDataSet(path)), expected(spec, set("LUXFD"), 1))
        else:
            compare(list(reader.read_from_file(path)), exp)


CHECKS = [Check("read", cases, run, quick=8000, thorough=300000, chunk=100),
          Check("large", lambda: cases("always"), run, quick=200, thorough=4000, chunk=4)]
