import random

from hypothesis import strategies as st

from lib import gen
from lib.core import Check, Violation, check, check_eq, check_raises

from babylondigger.datamodel import Document, Token, Sentence, Pos, TokenExtras

PROPERTY = "C02"
RULE = ("cases are documents with arbitrary text between tokens, multiword tokens, any input order of tokens and sentences, heads in any "
        "notation, plus a navigation walk; non-trivial: at least two sentences or a multiword token, and at least three words")
ASSUMPTIONS = ["heads, where present, point inside the sentence", "tokens lie inside the text"]


GAPS = [" ", "", "", " ", "  ", "\n", "x", " x ", "\u00a0", "-", "\u3000", "\u200b"]


@st.composite
def cases(draw, big=True):
    spec = draw(gen.documents(n_sents=(1, 4, 20), max_tokens=(5, 30), pool_size=4, big=big))
    if draw(st.integers(0, 7)) == 5:  # words without a text of their own
        for t in (t for s in spec["sents"] for t in s["toks"] if t["mwt"]):
            t["words"][draw(st.integers(0, len(t["words"]) - 1))]["t"] = ""
    words = sum(len(t["words"]) for s in spec["sents"] for t in s["toks"])
    n_toks = sum(len(s["toks"]) for s in spec["sents"])
    gap_codes = draw(st.binary(min_size=n_toks, max_size=n_toks))
    gaps = [GAPS[c % len(GAPS)] for c in gap_codes]
    return {"spec": spec, "gaps": gaps, "lead": draw(st.sampled_from(["", "", " ", "xy"])),
            "perm": draw(st.integers(0, 1000)), "notation": draw(st.lists(st.sampled_from("sdb"), min_size=1, max_size=5)),
            "extras": draw(st.lists(st.integers(0, 9), max_size=4)),
            "walk": draw(st.lists(st.tuples(st.sampled_from(["next", "previous", "head", "jump", "sjump", "snext", "sprevious"]), st.integers(0, 1000)), max_size=25))}


def build(case):
    """-> document, model rows"""
    spec = case["spec"]
    text, rows, bounds, g = case["lead"], [], [], 0
    for si, s in enumerate(spec["sents"]):
        first = len(rows)
        for t in s["toks"]:
            start = len(text)
            text += t["form"]
            end = len(text)
            text += case["gaps"][g]
            g += 1
            for k, w in enumerate(t["words"]):
                rows.append({"start": start, "end": end, "sub": k, "t": t, "w": w, "si": si, "first": first})
        bounds.append((first, len(rows)))
    tokens = []
    for i, r in enumerate(rows):
        w = r["w"]
        kw = {}
        r["extras"] = {"e": case["extras"][i]} if i < len(case["extras"]) else {}
        if r["extras"]:
            kw["extras"] = TokenExtras(r["extras"])
        if w["h"] is not None:
            note = case["notation"][i % len(case["notation"])]
            if note in "sb":
                kw["head_sentence_index"] = w["h"] - 1
            if note in "db":
                kw["head_document_index"] = -1 if w["h"] == 0 else r["first"] + w["h"] - 1
        r["pos"] = Pos(w["u"], w["x"], w["f"]) if w["p"] else None
        tokens.append(Token(r["start"], r["end"], pos=r["pos"], lemma=w["l"], deprel=w["d"], sub_index=r["sub"],
                            text_replacement=w["t"] if r["t"]["mwt"] else None, **kw))
    sents = [Sentence(a, b) for a, b in bounds]
    if case["perm"] % 3:
        rnd = random.Random(case["perm"])
        rnd.shuffle(tokens)
        rnd.shuffle(sents)
    return Document(text, tokens, sents if sents else None), text, rows, bounds


def key(t):
    return t.start, t.end, t.sub_index


def check_token(tok, r, text, head_index, head_key, where):
    w, t = r["w"], r["t"]
    check_eq(key(tok), (r["start"], r["end"], r["sub"]), where + " position")
    check_eq(tok.doc_text, text[r["start"]:r["end"]], where + " covered text")
    check_eq(tok.text, w["t"] if t["mwt"] else text[r["start"]:r["end"]], where + " text")
    check_eq(tok.is_multiword, t["mwt"], where + " is_multiword")
    check_eq(tok.text_replacement, w["t"] if t["mwt"] else None, where + " replacement")
    after = text[r["end"]:]
    check_eq(tok.space_after, after == "" or after[0].isspace(), where + " space_after")
    check_eq(tok.pos, r["pos"], where + " pos")
    check_eq(tok.lemma, w["l"], where + " lemma")
    check_eq(tok.deprel, w["d"], where + " deprel")
    check_eq(tok.extras.as_dict(), r["extras"], where + " extras")
    check_eq(tok.has_head, w["h"] is not None, where + " has_head")
    check_eq(tok.is_root, w["h"] == 0, where + " is_root")
    if w["h"] is not None:
        check_eq(tok.head_index, head_index, where + " head_index")
        h = tok.head
        if w["h"] == 0:
            check(h is None, where + " root has a head")
        else:
            check(h is not None and key(h) == head_key, where + " head", h, head_key)


def doc_head(r):
    h = r["w"]["h"]
    return None if h is None else -1 if h == 0 else r["first"] + h - 1


def rkey(r):
    return r["start"], r["end"], r["sub"]


def check_nav(item, i, n, keys, getkey, where):
    check_eq(item.is_first, i == 0, where + " is_first")
    check_eq(item.is_last, i == n - 1, where + " is_last")
    nxt, prv = item.next, item.previous
    if i == n - 1:
        check(nxt is None, where + " next after the last")
    else:
        check(nxt is not None and getkey(nxt) == keys[i + 1], where + " next")
        check_eq(getkey(nxt.previous), keys[i], where + " next.previous")
    if i == 0:
        check(prv is None, where + " previous before the first")
    else:
        check(prv is not None and getkey(prv) == keys[i - 1], where + " previous")
        check_eq(getkey(prv.next), keys[i], where + " previous.next")


def skey(s):
    return tuple(key(t) for t in s.tokens)


def run(case, ctx):
    doc, text, rows, bounds = build(case)
    ctx.labels |= gen.doc_features(case["spec"])
    ctx.label("shuffled input", case["perm"] % 3)
    ctx.nontrivial(len(rows) >= 3 and (len(bounds) > 1 or any(r["t"]["mwt"] for r in rows)))
    n = len(rows)
    keys = [rkey(r) for r in rows]
    check_eq(doc.text, text, "document text")
    check_eq(doc.document_text, text, "document text")
    check_eq(doc.tokens_count, n, "tokens count")
    check_eq([key(t) for t in doc.tokens], keys, "tokens")
    check_eq([key(t) for t in doc], keys, "iteration")
    check_eq(doc.sentences_count, len(bounds), "sentences count")
    check_eq([(s.start, s.end, s.len) for s in doc.sentences_boundaries], [(a, b, b - a) for a, b in bounds], "boundaries")
    for bad in (n, n + 3, -n - 1):
        check_raises(IndexError, lambda: doc[bad], "token index {} of {}".format(bad, n))
        check_raises(IndexError, lambda: doc.get_token(bad), "token index {} of {}".format(bad, n))
    for bad in (len(bounds), -len(bounds) - 1):
        check_raises(IndexError, lambda: doc.get_sentence(bad), "sentence index {} of {}".format(bad, len(bounds)))

    few = range(n) if n <= 40 else sorted(set(list(range(12)) + list(range(n - 12, n)) + list(range(0, n, max(1, n // 16)))))
    for i in few:
        r = rows[i]
        hd = doc_head(r)
        hk = keys[hd] if hd is not None and hd >= 0 else None
        check_token(doc[i], r, text, hd, hk, "document token {}".format(i))
        check_token(doc[i - n], r, text, hd, hk, "document token {}".format(i - n))
        check_token(doc.get_token(i), r, text, hd, hk, "document token {}".format(i))
        check_nav(doc[i], i, n, keys, key, "document token {}".format(i))
        check_nav(doc[i - n], i, n, keys, key, "document token {}".format(i - n))
    sent_keys = [tuple(keys[a:b]) for a, b in bounds]
    sents = list(doc.sentences)
    check_eq([skey(s) for s in sents], sent_keys, "sentences")
    for j, (a, b) in enumerate(bounds):
        for s in (sents[j], doc.get_sentence(j), doc.get_sentence(j - len(bounds))):
            m = b - a
            check_eq(skey(s), sent_keys[j], "sentence tokens")
            check_eq(s.tokens_count, m, "sentence size")
            check_eq(s.document_text, text, "sentence's document text")
            check_eq(s.text, text[rows[a]["start"]:rows[b - 1]["end"]], "sentence text")
            check_eq([key(t) for t in s], keys[a:b], "sentence iteration")
            check_nav(s, j, len(bounds), sent_keys, skey, "sentence {}".format(j))
        s = sents[j]
        for bad in (m, -m - 1):
            check_raises(IndexError, lambda: s[bad], "sentence token index {} of {}".format(bad, m))
        for i in (range(m) if m <= 12 else [0, 1, 2, m // 2, m - 3, m - 2, m - 1]):
            r = rows[a + i]
            h = r["w"]["h"]
            hk = keys[a + h - 1] if h else None
            for idx in (i, i - m):
                where = "sentence {} token {}".format(j, idx)
                check_token(s[idx], r, text, None if h is None else h - 1, hk, where)
                check_nav(s[idx], i, m, keys[a:b], key, where)

    # walk
    if n:
        i, tok, si, sent = 0, doc[0], 0, doc.get_sentence(0)
        scope = (0, n)
        for op, arg in case["walk"]:
            if op == "jump":
                i, scope = arg % n, (0, n)
                tok = doc[i if arg % 2 else i - n]
            elif op in ("next", "previous"):
                j = i + (1 if op == "next" else -1)
                new = tok.next if op == "next" else tok.previous
                if scope[0] <= j < scope[1]:
                    check(new is not None and key(new) == keys[j], "walk " + op)
                    i, tok = j, new
                else:
                    check(new is None, "walk beyond the border")
            elif op == "head":
                hd = doc_head(rows[i])
                if hd is not None:
                    new = tok.head
                    if hd == -1:
                        check(new is None, "head of root")
                    else:
                        check(new is not None and key(new) == keys[hd], "walk to head")
                        i, tok = hd, new
            elif op == "sjump":
                scope = bounds[si]
                i = scope[0] + arg % (scope[1] - scope[0])
                tok = sent[i - scope[0]]
            else:
                j = si + (1 if op == "snext" else -1)
                new = sent.next if op == "snext" else sent.previous
                if 0 <= j < len(bounds):
                    check(new is not None and skey(new) == sent_keys[j], "walk " + op)
                    si, sent = j, new
                else:
                    check(new is None, "sentence walk beyond the border")
            hd = doc_head(rows[i])
            check_token(tok, rows[i], text, hd if hd is None or hd == -1 else hd - scope[0],
                        keys[hd] if hd is not None and hd >= 0 else None, "walk")


CHECKS = [Check("views", cases, run, quick=3000, thorough=100000, chunk=60),
          Check("large", lambda: cases("always"), run, quick=120, thorough=3000, chunk=4)]
