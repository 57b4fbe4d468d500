import os
from copy import deepcopy

from hypothesis import strategies as st

from lib import gen, docs
from lib.core import Check, Violation, check, check_eq

from babylondigger.evaluation.conllu_io import CoNLLUReader, CoNLLUWriter
from babylondigger.evaluation.conll17_ud_eval import LEMMA, UPOS, XPOS, FEATS, HEAD, DEPREL

PROPERTY = "C05"
RULE = ("cases are one or more documents written together with a selection of columns, and a limit used for reading; non-trivial: at least two "
        "sentences and a multiword token, a token without following space or a partial selection of columns")
ASSUMPTIONS = ["texts and values contain no tab or line break, no value is '_', feature names and values contain no '=' and '|'",
               "each sentence has complete syntax or none", "token texts do not start with whitespace"]

COLS = {"L": LEMMA, "U": UPOS, "X": XPOS, "F": FEATS, "H": HEAD, "D": DEPREL}
ALL = "LUXFD"


@st.composite
def cases(draw, big=True):
    n_docs = draw(st.sampled_from([1, 1, 1, 2, 3]))
    return {"docs": [draw(gen.documents(n_sents=(1, 3, 10), max_tokens=(4, 25), big=big)) for _ in range(n_docs)],
            "cols": draw(st.one_of(st.none(), st.none(), st.just("LUXFHD"), st.lists(st.sampled_from("LUXFHD"), unique=True).map("".join))),
            "read_all": draw(st.booleans()),
            "limit": draw(st.sampled_from([1, 2, 3, 5, 50, 1000])),
            "notation": draw(st.sampled_from(["sent", "doc", "both"])),
            "file": draw(st.booleans())}


def expected_documents(specs, limit, written, read):
    """what reading must give: list of views"""
    sents = []
    for spec in specs:
        spec = deepcopy(spec)
        if spec["sents"]:
            spec["sents"][-1]["toks"][-1]["sp"] = True  # end of a text counts as a space
        sents += spec["sents"]
    has_pos = bool(set("UXF") & read)
    for s in sents:
        for k, w in enumerate(gen.words_of(s)):
            w["l"] = w["l"] if "L" in written & read else None
            w["u"] = w["u"] if "U" in written & read else None
            w["x"] = w["x"] if "X" in written & read else None
            w["f"] = w["f"] if "F" in written & read else {}
            w["p"] = has_pos
            if w["h"] is None or "H" not in written:  # placeholder tree
                w["h"], w["d"] = k, None
            if "H" not in read:
                w["h"] = None
            if "D" not in written & read:
                w["d"] = None
    return [docs.expected_view({"sents": sents[i:i + limit]}) for i in range(0, len(sents), limit)]


def reversed_features(spec):
    spec = deepcopy(spec)
    for s in spec["sents"]:
        for w in gen.words_of(s):
            if w["f"]:
                w["f"] = dict(reversed(list(w["f"].items())))
    return spec


def closure(cols):
    cols = set(cols)
    return cols | {"H"} if "D" in cols else cols


def run(case, ctx):
    specs = case["docs"]
    n = sum(len(s["sents"]) for s in specs)
    merged = {"sents": [s for spec in specs for s in spec["sents"]]}
    feats = gen.doc_features(merged)
    ctx.labels |= feats
    ctx.label("several documents", len(specs) > 1)
    ctx.label("columns: " + ("default" if case["cols"] is None else "some" if len(case["cols"]) < 6 else "all"))
    ctx.nontrivial(n >= 2 and bool({"mwt", "no space after"} & feats or (case["cols"] is not None and len(case["cols"]) < 6)))

    originals = [docs.build(s, case["notation"]) for s in specs]
    before = [docs.view(d) for d in originals]
    if case["cols"] is None:
        writer, written = CoNLLUWriter(), closure(ALL)
    else:
        writer, written = CoNLLUWriter([COLS[c] for c in case["cols"]]), closure(case["cols"])
    if case["read_all"] or case["cols"] is None:
        reader, read = CoNLLUReader(case["limit"]), closure(ALL)
    else:
        reader, read = CoNLLUReader(case["limit"], [COLS[c] for c in case["cols"]]), written

    text = writer.write_to_str(*originals)
    if case["file"]:
        path = os.path.join(ctx.scratch(), "out.conllu")
        if case["limit"] != 50:  # what the file contained before is gone
            with open(path, "w", encoding="utf-8") as f:
                f.write("1\told\n" * 2000)
        writer.write_to_file(path, *originals)
        result = list(reader.read_from_file(path))
        with open(path, encoding="utf-8", newline="") as f:
            check_eq(f.read(), text, "written file and written string")
    else:
        result = list(reader.read_from_str(text))
    expected = expected_documents(specs, case["limit"], written, read)
    check_eq(len(result), len(expected), "number of documents")
    for i, (r, e) in enumerate(zip(result, expected)):
        v = docs.view(r)
        check_eq(v["text"], e["text"], "text of document %d" % i)
        check_eq([len(s) for s in v["sents"]], [len(s) for s in e["sents"]], "sentence sizes of document %d" % i)
        for rs, es in zip(v["sents"], e["sents"]):
            for rt, et in zip(rs, es):
                if rt != et and not (et["has_pos"] and et["pos"] == (None, None, {}) and dict(rt, has_pos=True) == et):
                    raise Violation("token differs after writing and reading: {} instead of {}".format(rt, et))
    check_eq([docs.view(d) for d in originals], before, "documents after writing")
    check_eq(writer.write_to_str(*originals), text, "text written for the second time")
    # documents that are equal are written as the same text, however their features happen to be stored
    twins = [docs.build(reversed_features(s), {"sent": "doc", "doc": "both", "both": "sent"}[case["notation"]]) for s in specs]
    check_eq(writer.write_to_str(*twins), text, "text written for equal documents")
    # a document that was read is written as the same text again
    again = CoNLLUWriter([COLS[c] for c in written & read]).write_to_str(*result)
    if written == read and case["limit"] >= n:  # at the end of a document it is not known whether a space follows
        check_eq(again, text, "text written for the document that was read")


CHECKS = [Check("roundtrip", cases, run, quick=8000, thorough=300000, chunk=100),
          Check("large", lambda: cases("always"), run, quick=200, thorough=4000, chunk=4)]
