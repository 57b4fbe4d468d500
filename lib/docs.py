"""Builds real documents from specs and independent views of specs (the oracle side never uses the code under test)."""
from babylondigger.datamodel import Document, Token, Sentence, Pos


def make_pos(w):
    return Pos(w["u"], w["x"], dict(w["f"])) if w["p"] else None


def spec_text(spec, final_space=None):
    """surface forms joined by one space where sp is set"""
    parts = []
    for s in spec["sents"]:
        for t in s["toks"]:
            parts.append(t["form"])
            if t["sp"]:
                parts.append(" ")
    text = "".join(parts)
    return text


def layout(spec):
    """-> (text, [(start, end, sub_index, TOK, WORD, sentence number)], [(sentence start, end)])"""
    text, rows, bounds = "", [], []
    for si, s in enumerate(spec["sents"]):
        first = len(rows)
        for t in s["toks"]:
            start, end = len(text), len(text) + len(t["form"])
            for k, w in enumerate(t["words"]):
                rows.append((start, end, k, t, w, si))
            text += t["form"] + (" " if t["sp"] else "")
        bounds.append((first, len(rows)))
    return text, rows, bounds


def build(spec, notation="sent", validate=False):
    """:param notation: heads by sentence index, document index or both"""
    text, rows, bounds = layout(spec)
    tokens = []
    for start, end, k, t, w, si in rows:
        kw = {}
        if w.get("h") is not None:
            hs = w["h"] - 1
            hd = -1 if w["h"] == 0 else w["h"] - 1 + bounds[si][0]
            if notation in ("sent", "both"):
                kw["head_sentence_index"] = hs
            if notation in ("doc", "both"):
                kw["head_document_index"] = hd
        tokens.append(Token(start, end, pos=make_pos(w), lemma=w["l"], deprel=w.get("d"), sub_index=k,
                            text_replacement=w["t"] if t["mwt"] else None, **kw))
    return Document(text, tokens, [Sentence(a, b) for a, b in bounds] if bounds else None, validate)


def head_of(token):
    """1-based head of a sentence-view token, 0 for root, None if there is none"""
    if not token.has_head:
        return None
    if token.is_root:
        return 0
    return token.head_index + 1


def pos_tuple(pos):
    return (None, None, {}) if pos is None else (pos.upos, pos.xpos, pos.feats)


def view(doc):
    """observable content of a document, through public accessors of sentence views"""
    result = []
    for s in doc.sentences:
        sent = []
        for t in s.tokens:
            sent.append({"start": t.start, "end": t.end, "sub": t.sub_index, "text": t.text, "doc_text": t.doc_text,
                         "mwt": t.is_multiword, "repl": t.text_replacement, "sp": t.space_after,
                         "pos": pos_tuple(t.pos), "has_pos": t.pos is not None, "lemma": t.lemma, "head": head_of(t),
                         "deprel": t.deprel, "extras": t.extras.as_dict()})
        result.append(sent)
    return {"text": doc.text, "sents": result}


def expected_view(spec):
    text, rows, bounds = layout(spec)
    sents = []
    for a, b in bounds:
        sent = []
        for start, end, k, t, w, si in rows[a:b]:
            sent.append({"start": start, "end": end, "sub": k, "text": w["t"] if t["mwt"] else t["form"], "doc_text": t["form"],
                         "mwt": t["mwt"], "repl": w["t"] if t["mwt"] else None,
                         "sp": end == len(text) or text[end].isspace(),
                         "pos": (w["u"], w["x"], dict(w["f"])) if w["p"] else (None, None, {}), "has_pos": w["p"], "lemma": w["l"],
                         "head": w.get("h"), "deprel": w.get("d"), "extras": {}})
        sents.append(sent)
    return {"text": text, "sents": sents}
