"""Comparison of a loaded representation with the reference model."""
from lib.core import check, check_eq


def spans(items):
    return [(s.start, s.end) for s in items]


def compare_loaded(ud, ref):
    check_eq("".join(ud.characters), ref["chars"], "characters")
    check_eq(spans(ud.tokens), ref["tokens"], "surface tokens")
    check_eq(spans(ud.sentences), ref["sentences"], "sentences")
    check_eq(len(ud.words), len(ref["words"]), "number of words")
    number = {id(w): i for i, w in enumerate(ud.words)}
    for i, (w, r) in enumerate(zip(ud.words, ref["words"])):
        where = "word %d: " % i
        check_eq((w.span.start, w.span.end), r["span"], where + "span")
        check_eq(bool(w.is_multiword), r["mwt"], where + "is_multiword")
        cols = r["cols"]
        check_eq(w.columns[1].replace(" ", ""), cols[1].replace(" ", ""), where + "form")
        check_eq(list(w.columns[2:7]), cols[2:7], where + "columns")
        check_eq(w.columns[7], cols[7].split(":")[0], where + "relation")
        check_eq(None if w.parent is None else number[id(w.parent)], r["parent"], where + "parent")
