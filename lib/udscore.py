"""Scores of the CoNLL 2017 shared task, computed from their definition over representations of udref.load."""

CLAS_ZERO = {"aux", "case", "cc", "clf", "cop", "det", "mark", "punct"}
LEMMA, UPOS, XPOS, FEATS, HEAD, DEPREL = 2, 3, 4, 5, 6, 7


def multiword_spans(gold, system):
    """maximal unions of overlapping multiword tokens of both sides"""
    spans = sorted({w["span"] for w in gold["words"] + system["words"] if w["mwt"]})
    merged = []
    for a, b in spans:
        if merged and a < merged[-1][1]:
            merged[-1][1] = max(merged[-1][1], b)
        else:
            merged.append([a, b])
    return [tuple(m) for m in merged]


def unambiguous(gold, system):
    """cases in which the description of the alignment and the official algorithm cannot differ (the algorithm includes words into a
    multiword span which the description excludes when tokens of both sides overlap next to it)"""
    return gold["tokens"] == system["tokens"] or not any(w["mwt"] for w in gold["words"] + system["words"])


def align(gold, system):
    """-> list of (gold word index, system word index)"""
    spans = multiword_spans(gold, system)

    def place(words):
        inside = {s: [] for s in spans}
        free = {}
        for i, w in enumerate(words):
            a, b = w["span"]
            touching = [s for s in spans if a < s[1] and s[0] < b]
            if not touching:
                free[w["span"]] = i
            elif len(touching) == 1 and touching[0][0] <= a and b <= touching[0][1]:
                inside[touching[0]].append(i)
        return inside, free

    gi, gf = place(gold["words"])
    si, sf = place(system["words"])
    pairs = [(i, sf[span]) for span, i in gf.items() if span in sf]
    for s in spans:
        pairs += lcs_pairs(gi[s], si[s], lambda i: gold["words"][i]["cols"][1].replace(" ", "").lower() if not gold["words"][i]["mwt"] else gold["words"][i]["cols"][1].lower(),
                           lambda i: system["words"][i]["cols"][1].replace(" ", "").lower() if not system["words"][i]["mwt"] else system["words"][i]["cols"][1].lower())
    return sorted(pairs)


def lcs_pairs(g, s, gform, sform):
    n, m = len(g), len(s)
    gf, sf = [gform(i) for i in g], [sform(i) for i in s]
    best = [[0] * (m + 1) for _ in range(n + 1)]
    for i in range(n - 1, -1, -1):
        for j in range(m - 1, -1, -1):
            best[i][j] = max(best[i + 1][j], best[i][j + 1], best[i + 1][j + 1] + 1 if gf[i] == sf[j] else 0)
    pairs, i, j = [], 0, 0
    while i < n and j < m:
        if gf[i] == sf[j]:  # the earliest possible pairs
            pairs.append((g[i], s[j]))
            i, j = i + 1, j + 1
        elif best[i][j] == best[i + 1][j]:
            i += 1
        else:
            j += 1
    assert len(pairs) == best[0][0]
    return pairs


def prf(gold, system, correct, aligned=None):
    return (correct / system if system else 0.0, correct / gold if gold else 0.0, 2 * correct / (gold + system) if gold + system else 0.0,
            None if aligned is None else (correct / aligned if aligned else 0))


def rel(w):
    return w["cols"][DEPREL].split(":")[0]


def scores(gold, system, weights=None):
    """-> {metric: (precision, recall, f1, aligned accuracy)} or None if characters differ"""
    if gold["chars"] != system["chars"]:
        return None
    result = {}
    for name, key in (("Tokens", "tokens"), ("Sentences", "sentences")):
        result[name] = prf(len(gold[key]), len(system[key]), len(set(gold[key]) & set(system[key])))
    pairs = align(gold, system)
    to_gold = {s: g for g, s in pairs}
    gw, sw = gold["words"], system["words"]
    result["Words"] = prf(len(gw), len(sw), len(pairs))

    def metric(key, weight=lambda w: 1):
        correct = sum(weight(gw[g]) for g, s in pairs if key(gw[g], "gold") == key(sw[s], "system"))
        return prf(sum(map(weight, gw)), sum(map(weight, sw)), correct, sum(weight(gw[g]) for g, s in pairs))

    def parent(w, side):
        if w["parent"] is None:
            return "root"
        return w["parent"] if side == "gold" else to_gold.get(w["parent"], "unaligned")

    result["UPOS"] = metric(lambda w, side: w["cols"][UPOS])
    result["XPOS"] = metric(lambda w, side: w["cols"][XPOS])
    result["Feats"] = metric(lambda w, side: w["cols"][FEATS])
    result["AllTags"] = metric(lambda w, side: w["cols"][UPOS:FEATS + 1])
    result["Lemmas"] = metric(lambda w, side: w["cols"][LEMMA])
    result["UAS"] = metric(parent)
    result["LAS"] = metric(lambda w, side: (parent(w, side), rel(w)))
    result["CLAS"] = metric(lambda w, side: (parent(w, side), rel(w)), lambda w: 0 if rel(w) in CLAS_ZERO else 1)
    if weights is not None:
        result["WeightedLAS"] = metric(lambda w, side: (parent(w, side), rel(w)), lambda w: weights.get(rel(w), 1.0))
    return result
