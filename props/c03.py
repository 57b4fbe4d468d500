import itertools
import random

from hypothesis import strategies as st

from lib import gen
from lib.core import Check, Violation, check, check_eq

from babylondigger.datamodel import Document, Token, Sentence

PROPERTY = "C03"
RULE = ("cases are sentence lengths and head assignments, each head in document, sentence or both notations: valid trees, trees with few "
        "changed heads, arbitrary assignments; non-trivial: at least three words, and either rejected or spread over several sentences")
ASSUMPTIONS = ["without syntax check, heads outside of the sentence may be accepted or rejected with ValueError"]

# heads of a case: for every token [notation, value, other]; notation: "" none, "s", "d", "b" both consistent, "x" both, given separately,
# "D" only the document position, given by other (which may be the place just before the sentence: -1 as seen from the sentence, but no root);
# value: position of the head relative to the sentence (0-based), -1 root


def raw_heads(case):
    """-> per token (sentence index | None, document index | None) as given to the constructor, sentence bounds"""
    bounds, start = [], 0
    for n in case["lens"]:
        bounds.append((start, start + n))
        start += n
    heads = []
    flat = iter(case["heads"])
    for a, b in bounds:
        for _ in range(a, b):
            note, value, other = next(flat)
            doc = -1 if value == -1 else value + a
            heads.append({"": (None, None), "s": (value, None), "d": (None, doc), "b": (value, doc), "x": (value, other), "D": (None, other)}[note])
    return heads, bounds


def resolve(heads, bounds):
    """-> (contradiction?, head outside?, per sentence list of heads: None, -1 for root or index inside of the sentence)"""
    contradiction = outside = False
    sents = []
    for a, b in bounds:
        sent = []
        for s, d in heads[a:b]:
            if s is None and d is None:
                sent.append(None)
                continue
            views = set()
            if s is not None:
                views.add("root" if s == -1 else s)
            if d is not None:
                views.add("root" if d == -1 else d - a)
            if len(views) > 1:
                contradiction = True
                sent.append("?")
                continue
            h = views.pop()
            if h != "root" and not 0 <= h < b - a:
                outside = True
            sent.append(-1 if h == "root" else h)
        sents.append(sent)
    return contradiction, outside, sents


def is_tree(sent):
    if all(h is None for h in sent):
        return True
    if any(h is None or h == "?" or not -1 <= h < len(sent) for h in sent):
        return False
    if sent.count(-1) != 1:
        return False
    for i in range(len(sent)):
        seen, j = 0, i
        while sent[j] != -1:
            j = sent[j]
            seen += 1
            if seen > len(sent):
                return False
    return True


@st.composite
def cases(draw):
    lens = draw(st.lists(gen.sizes(1, 5, 30), min_size=1, max_size=draw(st.sampled_from([1, 2, 3, 8]))))
    heads = []
    notes = draw(st.sampled_from(["s", "d", "b", "sdb", "sdb"]))
    for n in lens:
        mode = draw(st.integers(0, 7))
        if mode == 0:
            values = [None] * n
        elif mode == 1:
            values = draw(st.lists(st.integers(-2, n), min_size=n, max_size=n))
        elif mode == 2:
            values = draw(st.lists(st.integers(-1, n - 1), min_size=n, max_size=n))
        else:
            values = [h - 1 for h in gen.tree_from_codes(draw(st.lists(gen.codes(), min_size=n, max_size=n)))]
        picks = draw(st.binary(min_size=n, max_size=n))
        for v, p in zip(values, picks):
            heads.append(["", 0, 0] if v is None else [notes[p % len(notes)], v, 0])
    total = sum(lens)
    bounds = list(itertools.accumulate([0] + lens))
    for _ in range(draw(st.sampled_from([0, 0, 0, 1, 1, 2]))):
        i = draw(st.integers(0, total - 1))
        si = next(k for k in range(len(lens)) if bounds[k] <= i < bounds[k + 1])
        n, a = lens[si], bounds[si]
        kind = draw(st.integers(0, 8))
        note = draw(st.sampled_from(notes))
        if kind == 0:
            heads[i] = ["", 0, 0]
        elif kind == 1:
            heads[i] = [note, -1, 0]
        elif kind == 2:
            heads[i] = [note, draw(st.integers(0, n - 1)), 0]
        elif kind == 3:
            heads[i] = [note, i - a, 0]
        elif kind == 4:
            heads[i] = [note, draw(st.sampled_from([n, -2, n + 1, -1 - a, total - a, total, -3])), 0]
        elif kind == 5:
            v = draw(st.integers(-1, n - 1))
            heads[i] = ["x", v, draw(st.integers(-1, total - 1))]
        elif kind == 6:
            v = draw(st.integers(-1, n - 1))
            heads[i] = ["x", v, draw(st.sampled_from([-1, v, v + a, v + a - 1, v + a + 1, a - 1, 0]))]
        elif kind == 8:  # instead of the root
            i = next((k for k in range(a, a + n) if heads[k][1] == -1 and heads[k][0]), i)
            heads[i] = [draw(st.sampled_from("sssdb")), draw(st.sampled_from([-1 - a, -2, n, -1 - a, total - a])), 0]
        elif kind == 7:
            heads[i] = ["D", 0, draw(st.sampled_from([a - 1, a + n, a, a - 2, total, 0, -2]))]
    return {"lens": lens, "heads": heads, "perm": draw(st.integers(0, 3)), "mwt": draw(st.integers(0, 3)), "lead": draw(st.sampled_from([0] * 12 + [40, 80, 150])),
            "before": draw(st.sampled_from([0] * 12 + [40, 130, 300]))}


def lengthened(case):
    """the same with many words before, which depend on the first one or, if it has no head, have none"""
    n = case.get("lead", 0)
    if not n:
        return case
    first = case["heads"][0]
    heads = [["sdb"[k % 3] if first[0] else "", n, 0] for k in range(n)]
    for k, (note, value, other) in enumerate(case["heads"]):
        heads.append([note, value + n if k < case["lens"][0] and value >= 0 else value, other + n if other >= 0 else other])
    return dict(case, lens=[case["lens"][0] + n] + case["lens"][1:], heads=heads)


def preceded(case):
    """the same with many sentences of one and of two words before"""
    n = case.get("before", 0)
    if not n:
        return case
    lens = [1 + k % 2 for k in range(n)]
    heads = [["sdb"[k % 3], j - 1, 0] for k in range(n) for j in range(lens[k])]
    total = len(heads)
    return dict(case, lens=lens + case["lens"], heads=heads + [[note, value, other + total if other >= 0 else other] for note, value, other in case["heads"]])


def run(case, ctx):
    case = preceded(lengthened(case))
    heads, bounds = raw_heads(case)
    contradiction, outside, sents = resolve(heads, bounds)
    valid = not contradiction and not outside and all(is_tree(s) for s in sents)
    total = bounds[-1][1]
    ctx.label("valid" if valid else "invalid")
    ctx.label("contradiction", contradiction)
    ctx.label("outside", outside)
    ctx.label("long", total > 40)
    ctx.label("many sentences", len(bounds) > 30)
    ctx.label("several sentences", len(bounds) > 1)
    ctx.label("no syntax at all", all(h is None for s in sents for h in s))
    ctx.nontrivial(total >= 3 and (not valid or len(bounds) > 1))

    # pairs of words share one surface token when case["mwt"]
    tokens = []
    for i, (s, d) in enumerate(heads):
        kw = {}
        if s is not None:
            kw["head_sentence_index"] = s
        if d is not None:
            kw["head_document_index"] = d
        if case["mwt"] == 1:
            tokens.append(Token(i - i % 2, i - i % 2 + 2, sub_index=i % 2, text_replacement="w%d" % i, deprel="r%d" % i, **kw))
        else:
            tokens.append(Token(i, i + 1, deprel="r%d" % i, **kw))
    given_order = list(tokens)
    if case["perm"]:
        random.Random(case["perm"]).shuffle(given_order)
    text = "x" * (total + 2)
    given_sents = [Sentence(a, b) for a, b in bounds]
    if case["perm"] == 2:
        given_sents.reverse()

    def make(validate):
        try:
            return Document(text, list(given_order), list(given_sents), validate)
        except ValueError:
            return None

    checked = make(True)
    if valid and checked is None:
        raise Violation("valid syntax rejected: {}".format(sents))
    if not valid and checked is not None:
        raise Violation("broken syntax accepted: {} (contradiction: {}, outside: {})".format(sents, contradiction, outside))
    unchecked = make(False)
    if contradiction:
        check(unchecked is None, "contradicting heads accepted without syntax check")
    elif not outside:
        check(unchecked is not None, "heads inside of sentences rejected although syntax is not checked", sents)
    for doc in (checked, unchecked):
        if doc is None or outside or contradiction:
            continue
        for (a, b), sent, s in zip(bounds, doc.sentences, sents):
            for k, (t, h) in enumerate(zip(sent.tokens, s)):
                check_eq(t.deprel, "r%d" % (a + k), "relation")
                check_eq(t.has_head, h is not None, "has_head")
                check_eq(t.is_root, h == -1, "is_root")
                dt = doc[a + k]
                check_eq(dt.has_head, h is not None, "has_head (document)")
                check_eq(dt.is_root, h == -1, "is_root (document)")
                if h is not None:
                    check_eq(t.head_index, h, "head inside of the sentence")
                    check_eq(dt.head_index, -1 if h == -1 else h + a, "head inside of the document")
                    if h == -1:
                        check(t.head is None and dt.head is None, "root has a head")
                    else:
                        check_eq(t.head.deprel, "r%d" % (a + h), "head token")
                        check_eq(dt.head.deprel, "r%d" % (a + h), "head token (document)")


def small():
    """all head assignments of one sentence of up to four words; of two sentences of two words in all notations"""
    for n in (1, 2, 3, 4):
        values = [None] + list(range(-1, n)) + ([n, -2] if n < 4 else [])
        for combo in itertools.product(values, repeat=n):
            yield {"lens": [n], "heads": [["", 0, 0] if v is None else ["s", v, 0] for v in combo], "perm": 0, "mwt": 0}
    for combo in itertools.product([None, -1, 0, 1], repeat=4):
        for note in "sdb":
            yield {"lens": [2, 2], "heads": [["", 0, 0] if v is None else [note, v, 0] for v in combo], "perm": 1, "mwt": 1}
    for s in range(-2, 4):
        for d in range(-2, 5):
            yield {"lens": [2, 2, 1], "heads": [["s", -1, 0], ["s", 0, 0], ["s", -1, 0], ["x", s, d], ["s", -1, 0]], "perm": 0, "mwt": 0}
    for d in range(-2, 6):
        for i in range(5):
            heads = [["s", -1, 0], ["s", 0, 0], ["s", -1, 0], ["s", 0, 0], ["s", -1, 0]]
            heads[i] = ["D", 0, d]
            yield {"lens": [2, 2, 1], "heads": heads, "perm": 0, "mwt": 0}
    for values in itertools.product(range(-5, 5), repeat=3):  # as seen from the sentence
        yield {"lens": [2, 3], "heads": [["s", -1, 0], ["s", 0, 0]] + [["s", v, 0] for v in values], "perm": 0, "mwt": 0}


CHECKS = [Check("heads", cases, run, quick=12000, thorough=400000, chunk=250, exhaustive=small)]
