"""Generators shared by the properties.

A document spec is plain data:
  {"sents": [{"toks": [TOK, ...], "tree": bool}, ...]}
  TOK  = {"form": str, "sp": bool (space after), "mwt": bool, "words": [WORD, ...]}     (one WORD unless mwt)
  WORD = {"t": text, "l": lemma|None, "u": upos|None, "x": xpos|None, "f": {..}, "p": bool (has Pos at all),
          "h": head (1-based in sentence, 0 root) | None, "d": deprel|None}
"""
import random
from functools import lru_cache

from hypothesis import strategies as st

# ------------------------------------------------------------------ characters and strings

PLAIN = "abcdeABCD"
SPECIAL = "_-.#=|:,'\"\\/&<>%{}()[]~`^*+?!$@;0123456789"
UNI = "\u00e9\u0451\u044f\u0416\u0130\u0131\u00df\u1e9e\u017f\u03a3\u03c3\u03c2\u0301\u05d0\u0627\u4e2d\u3042\u0531\u0561\ud55c\u00ad\u200b\u200d\ufeff\u2581\uff11"
ASTRAL = "\U0001f600\U00010400\U00010428\U0001d54f\U00020000"
BLANK = " \u00a0\u3000\u2028\u2029\x0b\x0c\x1c\x1d\x85"
FORBIDDEN = "\t\n\r"
ODD = ["&amp;", "&lt;s&gt;", "&#39;", "%20", "\\u0041", "\\n", "\\t", "``", "''", "\u2019", "d\u2019", "\u201cx\u201d", "\u00ab", "\u2013", "\u2014", "\u2026", "a\u2011b", "\u2212",
       "-LRB-", "null", "NaN", "nan", "True", "inf", "1e5", "0x10", "007", "1_000", "+1", "\u00bd", "\u00b2", "\u0662", "\u2460", "\ufb01n", "\u0132", "\u01c6", "\u2126", "\u212b", "e\u0301", "\u1100\u1161",
       "\U0001f468\u200d\U0001f469", "\U0001f1f7\U0001f1fa", "\u202eab", "<s>", "</s>", "<unk>", "[CLS]", "__", "_a", "a_", "-1", "a\u0130", "STRASSE", "stra\u00dfe", "#1", "a#b", "a=b|c", "http://a.b/c?d=e&f", "\x00", "\x1a", "\x7f"]
UPOS = ["ADJ", "ADP", "ADV", "AUX", "CCONJ", "DET", "INTJ", "NOUN", "NUM", "PART", "PRON", "PROPN", "PUNCT", "SCONJ", "SYM", "VERB", "X", "PUNCT"]


MIXED = PLAIN + SPECIAL + UNI + ASTRAL
ANY = st.characters(exclude_categories=("Cs",), exclude_characters=FORBIDDEN)
ANY_FEAT = st.characters(exclude_categories=("Cs",), exclude_characters=FORBIDDEN + "=|")
MIXED_FEAT = "".join(c for c in MIXED + BLANK if c not in "=|")


def _ok_form(s):
    return len(s) > 0 and not s[0].isspace() and not any(c in s for c in FORBIDDEN)


@lru_cache(None)
def forms(max_size=6):
    """token texts: non-empty, not starting with whitespace, no tab or line break"""
    return st.one_of(
        st.sampled_from(["a", "b", "A", "ab", "aB", "_", "-", ".", "1", "1-2", "1.1", "#", "# text", "=", "|", "SpaceAfter=No", ",", "n't", "...", "None", "ROOT"]),
        st.sampled_from(ODD + ["a", "b"] * 20),
        st.text("abAB", min_size=1, max_size=max_size),
        st.text(MIXED, min_size=1, max_size=max_size),
        st.text(MIXED + BLANK, min_size=1, max_size=max_size),
        st.text(ANY, min_size=1, max_size=max_size),
    ).filter(_ok_form)


def _ok_value(s):
    return s != "_" and not any(c in s for c in FORBIDDEN)


@lru_cache(None)
def values(max_size=5, allow_empty=True):
    """annotation values: anything without tab and line break, except '_' which means no value"""
    parts = [
        st.sampled_from(["a", "b", "A", "B", "x", "NOUN", "VERB", "a b", "-", "#", "1", "0", "None", "root"]),
        st.sampled_from(ODD + ["a", "b"] * 20),
        st.text("ab", min_size=1, max_size=3),
        st.text(MIXED + BLANK, min_size=1, max_size=max_size),
        st.text(ANY, min_size=1, max_size=max_size),
    ]
    if allow_empty:
        parts.append(st.sampled_from(["", "a", "b", "c"]))
    return st.one_of(*parts).filter(_ok_value)


@lru_cache(None)
def upos(allow_empty=True):
    """tags of Universal Dependencies, and any others"""
    return st.one_of(values(allow_empty=allow_empty), st.sampled_from(UPOS))


@lru_cache(None)
def feats(max_size=3):
    key = st.one_of(st.sampled_from(["Case", "Number", "a", "A", "b", "Number[psor]"]),
                    st.text(MIXED_FEAT, min_size=1, max_size=3), st.text(ANY_FEAT, min_size=1, max_size=3))
    value = st.one_of(st.sampled_from(["Nom", "Sing", "a", "b", "A,B", ""]),
                      st.text(MIXED_FEAT, min_size=1, max_size=3), st.text(ANY_FEAT, min_size=1, max_size=3))
    few = st.dictionaries(key, value, max_size=max_size)
    if max_size != 3:
        return st.one_of(st.just({}), few)
    many = st.tuples(st.integers(8, 15), few).map(lambda x: dict({"K{}".format(i): "v{}".format(i * 7 % 5) for i in range(x[0])}, **x[1]))
    return st.one_of(*[st.just({}), few] * 15 + [many])


@lru_cache(None)
def optional(s, weight=3):
    return st.one_of(*([s] * weight + [st.none()]))


@lru_cache(None)
def sizes(lo, typical, hi):
    """heavy-tailed sizes"""
    return st.one_of(st.integers(lo, typical), st.integers(lo, typical), st.integers(lo, typical), st.integers(lo, hi))


# ------------------------------------------------------------------ trees

def tree_from_codes(codes):
    """any list of non-negative integers -> heads (1-based, 0 for root); every tree is reachable"""
    n = len(codes)
    order, heads = [], [0] * n
    # order in which the nodes are attached, decided by the codes
    for i, c in enumerate(codes):
        order.insert((c // 1009) % (i + 1), i)
    for k, node in enumerate(order):
        if k == 0:
            heads[node] = 0
        else:
            heads[node] = order[codes[node] % k] + 1
    return heads


@lru_cache(None)
def codes():
    return st.integers(0, 1009 * 1009 - 1)


# ------------------------------------------------------------------ documents

WORD_KEYS = ("t", "l", "u", "x", "f", "p")


@lru_cache(None)
@st.composite
def word_templates(draw, full=False):
    """full: every annotation present (no missing values)"""
    has_pos = True if full else draw(st.integers(0, 5)) > 0
    opt = (lambda s, w=3: s) if full else optional
    text = draw(forms())
    lemma = draw(opt(values(allow_empty=not full)))
    same = draw(st.integers(0, 9))  # often the lemma is the word itself
    if same in (3, 7) and _ok_value(text if same == 3 else text.lower()):
        lemma = text if same == 3 else text.lower()
    return {
        "t": text,
        "l": lemma,
        "u": draw(opt(upos(allow_empty=not full), 5)) if has_pos else None,
        "x": draw(opt(values(allow_empty=not full), 2)) if has_pos else None,
        "f": draw(feats()) if has_pos else {},
        "p": has_pos,
    }


@lru_cache(None)
@st.composite
def token_templates(draw, full=False, mwt=True):
    if mwt and draw(st.integers(0, 2)) == 0:
        n = draw(sizes(1, 3, 12))
        return {"form": draw(forms()), "words": [draw(word_templates(full)) for _ in range(n)], "mwt": True}
    w = draw(word_templates(full))
    return {"form": w["t"], "words": [w], "mwt": False}


_INT = st.integers(0, 5)
_PICKS = lru_cache(None)(lambda n, m: st.lists(st.integers(0, m * 2 - 1), min_size=n, max_size=n))
_CODES = lru_cache(None)(lambda n: st.lists(codes(), min_size=n, max_size=n))


def draw_sentence(draw, pool, deprels, max_tokens=(4, 25), tree=None, min_tokens=1):
    n = draw(sizes(min_tokens, max_tokens[0], max_tokens[1]))
    picks = draw(_PICKS(n, len(pool)))
    toks = []
    for p in picks:
        t = pool[p // 2]
        toks.append({"form": t["form"], "sp": p % 2 == 0, "mwt": t["mwt"], "words": [dict(w) for w in t["words"]]})
    words = [w for t in toks for w in t["words"]]
    has_tree = draw(_INT) > 0 if tree is None else tree
    if has_tree:
        cs = draw(_CODES(len(words)))
        for w, h, c in zip(words, tree_from_codes(cs), cs):
            w["h"] = h
            w["d"] = deprels[c % len(deprels)]
    else:
        for w in words:
            w["h"], w["d"] = None, None
    return {"toks": toks, "tree": has_tree}


_POOL = lru_cache(None)(lambda full, mwt, n: st.lists(token_templates(full, mwt), min_size=1, max_size=n))
_DEPRELS = st.lists(st.one_of(st.sampled_from(["root", "nsubj", "punct", "nsubj:pass", "det", "case", "nsubj:a:b", "conj", "flat", "list", "obl"]), values(allow_empty=False)),
                    min_size=1, max_size=3)


def _big(rnd, kind, pool, deprels, tree):
    """sizes beyond the usual ones: a long sentence, many sentences or long texts, made from the pool"""
    if kind == "texts":
        n = rnd.choice([rnd.randint(60, 140), rnd.randint(250, 300), rnd.randint(1000, 1100)])
        pool = [dict(t, form=(t["form"] * n)[:n] + t["form"], words=[dict(w, t=(w["t"] * n)[:n] + w["t"], l=w["l"] and (w["l"] * n)[:n] + "x") for w in t["words"]]) for t in pool]
        lens = [rnd.randint(1, 3) for _ in range(rnd.randint(1, 3))]
    elif kind == "many":
        lens = [rnd.randint(1, 2) for _ in range(rnd.choice([rnd.randint(45, 130), rnd.randint(250, 260)]))]
    else:
        lens = [rnd.randint(1, 3) for _ in range(rnd.randint(0, 2))]
        lens.insert(rnd.randint(0, len(lens)), rnd.choice([rnd.randint(60, 140), rnd.randint(250, 300), rnd.randint(1000, 1100)]))
    sents = []
    for n in lens:
        toks, words = [], []
        while len(words) < n:
            t = rnd.choice(pool)
            toks.append({"form": t["form"], "sp": rnd.random() < 0.5, "mwt": t["mwt"], "words": [dict(w) for w in t["words"]]})
            words += toks[-1]["words"]
        has_tree = rnd.random() < 0.8 if tree is None else tree
        cs = [rnd.randrange(1009 * 1009) for _ in words]
        if rnd.random() < 0.5:  # heads far away
            heads = tree_from_codes(cs)
        else:
            heads = [i + 2 if i + 1 < len(words) else 0 for i in range(len(words))] if rnd.random() < 0.5 else list(range(len(words)))
        for w, h, c in zip(words, heads, cs):
            w["h"], w["d"] = (h, deprels[c % len(deprels)]) if has_tree else (None, None)
        sents.append({"toks": toks, "tree": has_tree})
    return {"sents": sents}


_SEED = st.integers(0, 10 ** 6)
_BIG = st.integers(0, 59)
_KIND = st.sampled_from(["sentence", "many", "texts"])


@lru_cache(None)
@st.composite
def documents(draw, n_sents=(1, 3, 12), max_tokens=(4, 25), full=False, mwt=True, tree=None, pool_size=5, big=False):
    pool = draw(_POOL(full, mwt, pool_size))
    deprels = draw(_DEPRELS)
    if not full and draw(st.integers(0, 6)) == 0:
        deprels = deprels + [None]
    if big and (big == "always" or draw(_BIG) == 31):
        return _big(random.Random(draw(_SEED)), draw(_KIND), pool, deprels, tree)
    n = draw(sizes(*n_sents))
    if n_sents[0] <= 1 and draw(st.integers(0, 40)) == 17:
        n = 0
    return {"sents": [draw_sentence(draw, pool, deprels, max_tokens, tree) for _ in range(n)]}


def words_of(sent):
    return [w for t in sent["toks"] for w in t["words"]]


def doc_features(spec):
    """labels of a document spec"""
    labels = set()
    n = len(spec["sents"])
    labels.add("sents:" + ("0" if n == 0 else "1" if n == 1 else "2-9" if n < 10 else "10+"))
    toks = [t for s in spec["sents"] for t in s["toks"]]
    if any(t["mwt"] for t in toks):
        labels.add("mwt")
    if any(s["toks"][-1]["mwt"] for s in spec["sents"][:-1]):
        labels.add("mwt ends a sentence before another")
    if any(a["mwt"] and b["mwt"] for s in spec["sents"] for a, b in zip(s["toks"], s["toks"][1:])):
        labels.add("adjacent mwts")
    if any(not t["sp"] for t in toks):
        labels.add("no space after")
    if any(s["tree"] for s in spec["sents"]) and any(not s["tree"] for s in spec["sents"]):
        labels.add("syntax in some sentences only")
    if any(len(s["toks"]) >= 60 for s in spec["sents"]):
        labels.add("60+ tokens in a sentence")
    if any(len(t["form"]) >= 60 for t in toks):
        labels.add("60+ characters in a token")
    if n >= 45:
        labels.add("45+ sentences")
    if len(toks) > 20:
        labels.add("20+ tokens")
    return labels
