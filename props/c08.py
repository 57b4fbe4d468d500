import os
from copy import deepcopy
from io import StringIO

from hypothesis import strategies as st

from lib import gen, docs, udref, udcmp, conllu
from lib.core import Check, Violation, check, check_eq

from babylondigger.evaluation.conllu_io import CoNLLUWriter
from babylondigger.evaluation.conll17_ud_eval import load_conllu, load_conllu_file, evaluate

PROPERTY = "C08"
RULE = ("cases are one or more documents and one change of one annotation of one word; non-trivial: at least three words and either a multiword token, "
        "several sentences or a change that must affect a metric")
ASSUMPTIONS = ["texts and values contain no tab or line break, token texts do not start with whitespace, each sentence has complete syntax or none"]

METRICS = ["Tokens", "Sentences", "Words", "UPOS", "XPOS", "Feats", "AllTags", "Lemmas", "UAS", "LAS", "CLAS"]
FUNCTIONAL = {"aux", "case", "cc", "clf", "cop", "det", "mark", "punct"}


@st.composite
def cases(draw, big=True):
    n_docs = draw(st.sampled_from([1, 1, 1, 2]))
    return {"docs": [draw(gen.documents(n_sents=(1, 3, 8), max_tokens=(4, 20), big=big)) for _ in range(n_docs)], "notation": draw(st.sampled_from(["sent", "doc", "both"])),
            "change": draw(st.sampled_from(["lemma", "upos", "xpos", "feats", "feats-", "head", "deprel", "deprel", "subtype", "functional"])),
            "word": draw(st.integers(0, 999)), "arg": draw(st.integers(0, 999)), "file": draw(st.booleans())}


def base(d):
    return "_" if d is None else d.split(":")[0]


def content(w, written):
    return base(w["d"] if written else None) not in FUNCTIONAL


def with_text(texts, ctx, on_file):
    if not on_file:
        return load_conllu(StringIO(texts))
    path = os.path.join(ctx.scratch(), "x.conllu")
    with open(path, "w", encoding="utf-8", newline="") as f:
        f.write(texts)
    return load_conllu_file(path)


def descendants(ws, k):
    """indices of words below k (including k); heads are 1-based"""
    result = {k}
    grown = True
    while grown:
        grown = False
        for i, w in enumerate(ws):
            if w["h"] and w["h"] - 1 in result and i not in result:
                result.add(i)
                grown = True
    return result


def run(case, ctx):
    specs = case["docs"]
    merged = {"sents": [s for spec in specs for s in spec["sents"]]}
    feats = gen.doc_features(merged)
    ctx.labels |= feats
    text = CoNLLUWriter().write_to_str(*[docs.build(s, case["notation"]) for s in specs])
    ud = with_text(text, ctx, case["file"])

    # same words, surface tokens and sentences as the documents have
    chars, tokens, sentences, words = "", [], [], []
    for s in merged["sents"]:
        start, first = len(chars), len(words)
        k = 0
        for t in s["toks"]:
            form = t["form"].replace(" ", "")
            span = (len(chars), len(chars) + len(form))
            tokens.append(span)
            chars += form
            for w in t["words"]:
                head = w["h"] if w["h"] is not None else k  # placeholder chain
                k += 1
                words.append({"span": span, "mwt": t["mwt"], "parent": None if head == 0 else first + head - 1,
                              "cols": [str(k), w["t"], conllu._v(w["l"]), conllu._v(w["u"]), conllu._v(w["x"]), conllu.feats_str(w["f"]), str(head),
                                       conllu._v(w["d"]) if w["h"] is not None else "_"]})
        sentences.append((start, len(chars)))
    udcmp.compare_loaded(ud, {"chars": chars, "tokens": tokens, "sentences": sentences, "words": words})

    # perfect score against itself
    n = len(words)
    scores = evaluate(ud, with_text(text, ctx, False))
    check_eq(set(scores), set(METRICS), "metrics")
    n_content = sum(1 for w in words if base(w["cols"][7]) not in FUNCTIONAL)
    for m in METRICS:
        s = scores[m]
        total = len(tokens) if m == "Tokens" else len(sentences) if m == "Sentences" else n_content if m == "CLAS" else n
        if total:
            check_eq((s.precision, s.recall, s.f1), (1, 1, 1), "score of identical data, " + m)
            check(m in ("Tokens", "Sentences", "Words") or s.aligned_accuracy == 1, "aligned accuracy of identical data, " + m)

    ctx.nontrivial(n >= 3 and ("mwt" in feats or len(merged["sents"]) > 1))
    if n == 0:
        return

    # one change
    changed = deepcopy(specs)
    all_words = [(s, w) for spec in changed for s in spec["sents"] for w in gen.words_of(s)]
    i = case["word"] % n
    s, w = all_words[i]
    ws = gen.words_of(s)
    kind = case["change"]
    affected = set()
    old_deprel = w["d"]
    if kind in ("upos", "xpos", "feats", "feats-") and not w["p"]:
        kind = "lemma"
    if kind == "feats-" and not w["f"]:
        kind = "feats"
    if kind in ("head", "deprel", "subtype", "functional") and not s["tree"]:
        kind = "lemma"
    if kind == "lemma":
        w["l"] = (w["l"] or "") + "x" if case["arg"] % 3 or w["l"] is None else None
        affected = {"Lemmas"}
    elif kind == "upos":
        w["u"] = (w["u"] or "") + "x" if case["arg"] % 3 or w["u"] is None else None
        affected = {"UPOS", "AllTags"}
    elif kind == "xpos":
        w["x"] = (w["x"] or "") + "x" if case["arg"] % 3 or w["x"] is None else None
        affected = {"XPOS", "AllTags"}
    elif kind == "feats":
        w["f"] = dict(w["f"], Zz="1")
        affected = {"Feats", "AllTags"}
    elif kind == "feats-":
        f = dict(w["f"])
        f.pop(sorted(f)[case["arg"] % len(f)])
        w["f"] = f
        affected = {"Feats", "AllTags"}
    elif kind == "head":
        k = next(j for j, x in enumerate(ws) if x is w)
        below = descendants(ws, k)
        options = [j + 1 for j in range(len(ws)) if j not in below and j + 1 != w["h"]]
        if w["h"] != 0 and options:
            w["h"] = options[case["arg"] % len(options)]
            affected = {"UAS", "LAS", "CLAS"}
    elif kind == "deprel":
        w["d"] = "y" + (w["d"] or "")
        affected = {"LAS", "CLAS"}
    elif kind == "functional":
        w["d"] = sorted(FUNCTIONAL)[case["arg"] % len(FUNCTIONAL)]
        affected = {"LAS", "CLAS"} if base(w["d"]) != base(old_deprel) else set()
    elif kind == "subtype":
        w["d"] = base(w["d"]) + ":other"
    ctx.label("change:" + kind)
    ctx.nontrivial(n >= 3 and bool(affected))
    new_text = CoNLLUWriter().write_to_str(*[docs.build(x, case["notation"]) for x in changed])
    result = evaluate(ud, with_text(new_text, ctx, False))
    for m in METRICS:
        a = scores[m]
        b = result[m]
        if m == "CLAS" and affected:
            gold_c = content({"d": old_deprel}, s["tree"])
            sys_c = content(w, s["tree"])
            n_sys = n_content - gold_c + sys_c
            correct = n_content - (1 if gold_c and "CLAS" in affected else 0)
            expected = (correct / n_sys if n_sys else 0, correct / n_content if n_content else 0, 2 * correct / (n_sys + n_content) if n_sys + n_content else 0)
            check_eq((b.precision, b.recall, b.f1), expected, "CLAS after change of " + kind)
        elif m in affected:
            expected = (n - 1) / n
            check_eq((b.precision, b.recall, b.f1, b.aligned_accuracy), (expected,) * 4, m + " after change of " + kind)
        else:
            check_eq((b.precision, b.recall, b.f1, b.aligned_accuracy), (a.precision, a.recall, a.f1, a.aligned_accuracy), m + " after change of " + kind)


CHECKS = [Check("scored", cases, run, quick=6000, thorough=200000, chunk=100),
          Check("large", lambda: cases("always"), run, quick=120, thorough=2000, chunk=4)]
