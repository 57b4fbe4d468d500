from hypothesis import strategies as st

from lib import gen
from lib.core import Check, Violation, check, check_eq

from babylondigger.datamodel import Document, Token, Sentence

PROPERTY = "C01"
RULE = ("cases are token lists (start, end, number inside a multiword token), sentence lists and the order in which both are given: "
        "valid layouts, layouts broken by one or two mutations, and arbitrary small ones; non-trivial: at least two tokens, and "
        "either more than one sentence, a multiword token, or a layout that must be rejected")
ASSUMPTIONS = ["tokens and sentences satisfy the assertions of their own constructors (start < end, text for words of multiword tokens)"]


# ---------------------------------------------------------------- oracle

def tokens_valid(tokens):
    groups = {}
    for start, end, sub, text in tokens:
        groups.setdefault((start, end), []).append((sub, text))
    spans = sorted(groups)
    for i in range(len(spans)):
        for j in range(i + 1, min(i + 2, len(spans))):
            if spans[i][1] > spans[j][0]:
                return False
    for words in groups.values():
        if len(words) == 1 and words[0][1] is None:
            continue
        if any(text is None for _, text in words):
            return False
        if sorted(sub for sub, _ in words) != list(range(len(words))):
            return False
    return True


def sentences_valid(n, sentences):
    if sentences is None:
        return True
    position = 0
    for a, b in sorted(map(tuple, sentences)):
        if a != position:
            return False
        position = b
    return position == n


# ---------------------------------------------------------------- generator

@st.composite
def layouts(draw):
    n = draw(gen.sizes(0, 4, 30))
    tokens, pos = [], 0
    for _ in range(n):
        pos += draw(st.sampled_from([0, 1, 1, 2]))
        length = draw(st.integers(1, 3))
        words = draw(st.sampled_from([0, 0, 0, 1, 2, 3, 4]))
        if words == 0:
            tokens.append([pos, pos + length, 0, None])
        for k in range(words):
            tokens.append([pos, pos + length, k, draw(st.sampled_from(["a", "", "b"]))])
        pos += length
    if not tokens:
        return {"tokens": [], "sents": draw(st.sampled_from([None, [], [[0, 1]], [[0, 2], [2, 3]]])), "len": draw(st.integers(0, 3)), "as": draw(AS)}
    total = len(tokens)
    cuts = sorted(draw(st.sets(st.integers(1, total), max_size=min(total, draw(st.sampled_from([0, 1, 3, 8]))))) | {total})
    sents = [[a, b] for a, b in zip([0] + cuts, cuts)]
    if draw(st.integers(0, 5)) == 0:
        sents = None

    for _ in range(draw(st.sampled_from([0, 0, 1, 1, 1, 2]))):
        kind = draw(st.integers(0, 11))
        i = draw(st.integers(0, len(tokens) - 1)) if tokens else 0
        if kind <= 5 and tokens:
            t = tokens[i]
            if kind == 0:
                del tokens[i]
                if sents is not None and draw(st.booleans()):  # keep sentences consistent with the new number of tokens
                    sents = [[a - (a > i), b - (b > i)] for a, b in sents]
                    sents = [s for s in sents if s[0] < s[1]]
            elif kind == 1:
                tokens.insert(i, list(t))
                if sents is not None and draw(st.booleans()):
                    sents = [[a + (a > i), b + (b > i)] for a, b in sents]
            elif kind == 2:
                t[1] += draw(st.integers(1, 3))
            elif kind == 3:
                d = draw(st.integers(1, 3))
                if t[0] - d >= 0:
                    t[0] -= d
            elif kind == 4:
                if t[3] is None:
                    t[3] = "x"
                t[2] += draw(st.sampled_from([1, 2, -1]))
            elif kind == 5:
                if t[3] is None:
                    t[3] = "x"
                elif t[2] == 0:
                    t[3] = None
        elif sents is not None and sents:
            j = draw(st.integers(0, len(sents) - 1))
            s = sents[j]
            if kind == 6:
                del sents[j]
            elif kind == 7:
                sents.insert(j, list(s))
            elif kind == 8:
                s[1] += draw(st.integers(1, 2))
            elif kind == 9 and s[1] - s[0] > 1:
                s[1] -= 1
            elif kind == 10 and s[1] - s[0] > 1:
                s[0] += 1
            elif kind == 11 and s[0] > 0:
                s[0] -= 1
    tokens = draw(st.permutations(tokens)) if draw(st.booleans()) else tokens
    if sents and draw(st.booleans()):
        sents = draw(st.permutations(sents))
    return {"tokens": tokens, "sents": sents, "len": max([t[1] for t in tokens] + [0]) + draw(st.integers(0, 2)), "as": draw(AS), "lead": draw(LEADS),
            "tail": draw(TAILS)}


TAILS = st.sampled_from([0] * 30 + [30, 130, 300])
LEADS = st.sampled_from([0] * 20 + [30, 70, 300, 31, 71, 301])
AS = st.sampled_from(["list", "tuple", "iter"])


@st.composite
def arbitrary(draw):
    tokens = []
    for _ in range(draw(st.integers(0, 4))):
        start = draw(st.integers(0, 3))
        text = draw(st.sampled_from([None, "w"]))
        tokens.append([start, start + draw(st.integers(1, 2)), draw(st.integers(0, 2)) if text is not None else 0, text])
    sents = draw(st.none() | st.lists(st.builds(lambda a, n: [a, a + n], st.integers(0, 4), st.integers(1, 4)), max_size=3))
    return {"tokens": tokens, "sents": sents, "len": 6, "as": draw(AS)}


def run(case, ctx):
    tokens, sents = case["tokens"], case["sents"]
    lead = case.get("lead", 0)
    if lead:  # the same after many plain tokens
        sents = sents if sents is None else [[a + lead, b + lead] for a, b in sents] + ([[i, i + 1] for i in range(lead)] if lead % 2 else [[0, lead]])
        tokens = [[s + lead, e + lead, k, t] for s, e, k, t in tokens] + [[i, i + 1, 0, None] for i in range(lead)]
    tail = case.get("tail", 0)
    if tail:  # the same followed by many sentences
        end, n = case["len"] + lead, len(tokens)
        sents = sents if sents is None else sents + [[n + i, n + i + 1] for i in range(tail)]
        tokens = tokens + [[end + i, end + i + 1, 0, None] for i in range(tail)]
    ok = tokens_valid(tokens) and sentences_valid(len(tokens), sents)
    ctx.label("accepted" if ok else "rejected")
    ctx.label("after %d tokens" % lead, lead)
    ctx.label("before many sentences", tail)
    ctx.label("mwt", any(t[3] is not None for t in tokens))
    ctx.label("several sentences", sents is not None and len(sents) > 1)
    ctx.label("unsorted", [t[:3] for t in tokens] != sorted(t[:3] for t in tokens))
    ctx.nontrivial(len(tokens) > 1 and (not ok or (sents is not None and len(sents) > 1) or any(t[3] is not None for t in tokens)))
    text = ("abcdefghij" * 99)[:case["len"] + lead + tail]
    toks = [Token(s, e, sub_index=k, text_replacement=t) for s, e, k, t in tokens]
    before = list(toks)
    if sents is None:
        ss = None
    else:
        ss = [Sentence(a, b) for a, b in sents]
        ss = tuple(ss) if case["as"] == "tuple" else iter(ss) if case["as"] == "iter" else ss
    try:
        doc = Document(text, toks, ss)
    except ValueError as e:
        if ok:
            raise Violation("well-formed document rejected: {}".format(e))
        return
    if not ok:
        raise Violation("malformed document accepted")
    check(all(a is b for a, b in zip(before, toks)) and len(before) == len(toks), "list of tokens was modified")
    check_eq([(t.start, t.end, t.sub_index, t.text_replacement) for t in doc.tokens],
             [tuple(t) for t in sorted(tokens, key=lambda t: t[:3])], "tokens")
    expected = sorted(map(tuple, sents)) if sents is not None else ([(0, len(tokens))] if tokens else [])
    check_eq([(s.start, s.end) for s in doc.sentences_boundaries], expected, "sentence boundaries")
    check_eq(doc.sentences_count, len(expected), "number of sentences")
    check_eq([s.tokens_count for s in doc.sentences], [b - a for a, b in expected], "sentence sizes")


def small():
    """all layouts of up to three tokens over spans inside [0, 3) and few sentence lists"""
    import itertools
    spans = [(0, 1), (0, 2), (1, 2), (1, 3), (2, 3)]
    kinds = [(0, None), (0, "w"), (1, "w"), (2, "w")]
    toks = [[a, b, k, t] for a, b in spans for k, t in kinds]
    sent_lists = {0: [None, [], [[0, 1]]],
                  1: [None, [], [[0, 1]], [[0, 2]], [[1, 2]], [[0, 1], [0, 1]], [[0, 1], [1, 2]]],
                  2: [None, [], [[0, 2]], [[0, 1]], [[1, 2]], [[1, 2], [0, 1]], [[0, 2], [1, 2]], [[0, 1], [0, 2]], [[0, 3]], [[0, 1], [1, 3]]]}
    for n in (0, 1, 2):
        for combo in itertools.product(toks, repeat=n):
            for sents in sent_lists[n]:
                yield {"tokens": [list(t) for t in combo], "sents": sents, "len": 3, "as": "list"}
    for combo in itertools.combinations(toks, 3):
        for sents in ([[0, 3]], [[0, 1], [1, 3]], [[0, 1], [2, 3]]):
            yield {"tokens": [list(t) for t in combo], "sents": sents, "len": 3, "as": "list"}


# ---------------------------------------------------------------- empty tokens and sentences

@st.composite
def empties(draw):
    n = draw(st.integers(0, 5))
    cuts = sorted(draw(st.sets(st.integers(1, n), max_size=n)) | {n}) if n else []
    return {"n": n, "cuts": cuts, "what": draw(st.sampled_from(["token", "sentence"])), "at": draw(st.integers(0, n)), "by": draw(st.sampled_from([0, 0, 1, 2])),
            "first": draw(st.booleans())}


def run_empty(case, ctx):
    """a token or sentence without anything in it never becomes part of a document"""
    n, at, end = case["n"], case["at"], case["at"] - case["by"]
    spans = [(2 * i, 2 * i + 1) for i in range(n)]
    sents = list(zip([0] + case["cuts"], case["cuts"]))

    def construct():
        toks = [Token(a, b) for a, b in spans]
        ss = [Sentence(a, b) for a, b in sents]
        if case["what"] == "token":
            new = Token(2 * at, 2 * at - case["by"])
            toks.insert(0 if case["first"] else n, new)
            if ss:
                ss[-1] = Sentence(ss[-1].start, n + 1)
            else:
                ss = [Sentence(0, 1)]
        else:
            ss.insert(0 if case["first"] else len(ss), Sentence(at, end))
        return Document("a b c d e f g h", toks, ss)
    ctx.label(case["what"])
    ctx.nontrivial(n > 1)
    try:
        doc = construct()
    except (AssertionError, ValueError):
        return
    raise Violation("document with an empty {} accepted: {!r}".format(case["what"], doc))


CHECKS = [
    Check("empty", empties, run_empty, quick=1000, thorough=20000, chunk=250),
    Check("layouts", layouts, run, quick=12000, thorough=400000, chunk=250, exhaustive=small),
    Check("arbitrary", arbitrary, run, quick=4000, thorough=100000, chunk=250),
]
