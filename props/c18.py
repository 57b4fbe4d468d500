from collections import Counter

from hypothesis import strategies as st

from lib import docs, features, gen
from lib.core import Check, check, check_eq
from babylondigger.features.provider import LemmaDictExtractorProvider, LemmaTransformationExtractorProvider, LemmaCharExtractorProvider

PROPERTY = "C18"
RULE = ("cases are training data of words with lemmas (related words, exceptions, upper case, Unicode), thresholds and maximal lengths, encoded and decoded in three "
        "representations; every label is also decoded for every word; non-trivial: at least three different lemmas and some rule below the threshold or lemma cut")
ASSUMPTIONS = ["every token of training data has a lemma", "only lemmas of the training data are encoded with the vocabulary"]


@st.composite
def cases(draw, always=False):
    spec = draw(gen.documents(n_sents=(2, 5, 9), max_tokens=(8, 14), pool_size=4))
    spec = {"sents": spec["sents"] or [{"tree": False, "toks": [{"form": "a", "sp": True, "mwt": False, "words": [dict(t="a", l="a", u=None, x=None, f={}, p=True, h=None, d=None)]}]}]}
    alphabet = draw(st.sampled_from(["ab", "abA", "abcAB", "abİßÉé\u0301Σσς"]))
    stems = draw(st.lists(st.text(alphabet, min_size=1, max_size=5), min_size=1, max_size=4))
    endings = [["", ""], ["s", ""], ["es", ""], ["ing", "e"], ["S", ""], ["", "a"]]
    words = []
    for _ in range(draw(st.sampled_from([4, 2, 6, 9]))):
        stem = draw(st.sampled_from(stems))
        kind = draw(st.integers(0, 5))
        if kind == 3:  # exception
            words.append([draw(st.text(alphabet, min_size=1, max_size=4)), draw(st.text(alphabet, max_size=4))])
        elif kind == 4:
            words.append([stem, draw(st.one_of(st.just(stem), st.text(alphabet, max_size=12)))])
        else:
            e = draw(st.sampled_from(endings))
            words.append([stem + e[0], stem + e[1]])
    if draw(st.integers(0, 7)) == 5:
        words.append([draw(gen.forms()), draw(gen.values())])
    if draw(st.integers(0, 9)) == 7:  # long ones
        unit, times = draw(st.text(alphabet, min_size=1, max_size=5)), draw(st.integers(15, 40))
        words.append([unit * times + draw(st.sampled_from(["", "s"])), draw(st.sampled_from([unit * times, unit * times + "b", unit, "a" + unit * times]))])
    n = sum(len(t["words"]) for s in spec["sents"] for t in s["toks"])
    salt = draw(st.sampled_from([1, 0, 7, 13]))
    picks = [b + salt * j for j, b in enumerate(draw(st.binary(min_size=n, max_size=n)))]
    i = 0
    for s in spec["sents"]:
        for t in s["toks"]:
            for w in t["words"]:
                w["t"], w["l"] = words[picks[i] % len(words)]
                i += 1
            if not t["mwt"]:
                t["form"] = t["words"][0]["t"]
    return {"first": draw(st.integers(0, 2)), "more": draw(st.sampled_from([40, 150, 300])) if always or draw(MORE) == 31 else 0, "spec": spec, "cut": draw(st.integers(1, 4)), "threshold": draw(st.sampled_from([0, 0, 1, 2, 3])), "min_frequency": draw(st.sampled_from([0, 1, 2, 3, 5])),
            "max_length": draw(st.sampled_from([1, 2, 3, 4, 6, 15, 40, 100])), "strangers": draw(st.lists(st.one_of(st.text(alphabet, min_size=1, max_size=6), gen.forms()), min_size=1, max_size=3))}


MORE = st.integers(0, 59)


def extended(spec, n):
    """the same with n more words, most of which have a lemma and a rule of their own and characters of their own"""
    words = []
    for j in range(n):
        e = "".join("bcdefghkmnp"[j // 11 ** k % 11] for k in range(3))
        words.append({"t": "q" + e, "l": ["qz" + e, "q" + e + chr(0x4e00 + j), "x" + e][j % 3 if j % 5 else 0], "u": None, "x": None, "f": {}, "p": True, "h": None, "d": None})
    words += words[:n // 3]
    return {"sents": spec["sents"] + [{"tree": False, "toks": [{"form": w["t"], "sp": True, "mwt": False, "words": [w]} for w in words[i:i + 40]]} for i in range(0, len(words), 40)]}


def split(case):
    k = case["cut"]
    return [{"sents": case["spec"]["sents"][i:i + k]} for i in range(0, len(case["spec"]["sents"]), k)]


def stranger(word):
    return docs.build({"sents": [{"toks": [{"form": word, "sp": True, "mwt": False, "words": [dict(t=word, l=None, u="U", x=None, f={"a": "b"}, p=True, h=0, d="root")]}]}]})


def strangers_with_lemmas(case):
    """another data set"""
    words = [{"t": w, "l": w[::-1] + "z", "u": None, "x": None, "f": {}, "p": True, "h": None, "d": None} for w in case["strangers"]]
    return [docs.build({"sents": [{"tree": False, "toks": [{"form": w["t"], "sp": True, "mwt": False, "words": [w]} for w in words]}]})]


def common(a, b):
    n = 0
    while n < min(len(a), len(b)) and a[n] == b[n]:
        n += 1
    return n


def encode(labels_of, documents, name):
    result = []
    for d in documents:
        for s in d.sentences:
            encoded = features.plain(labels_of.get_features([s])[name])
            check_eq((len(encoded), len(encoded[0])), (1, s.tokens_count), "shape of the labels")
            result.extend(encoded[0])
    return result


def decode(interpreter, documents, name, labels, lemma_of):
    """decodes labels (flat) for the documents, checks that lemma_of(word, label) is the lemma and that nothing else changes"""
    i = 0
    for d in documents:
        before = docs.view(d)
        tokens = []
        expected = []
        for s in d.sentences:
            here = labels[i:i + s.tokens_count]
            expected.append([lemma_of(t.text, ids, t.lemma) for t, ids in zip(s.tokens, here)])
            i += s.tokens_count
            decoded = interpreter.interpret([s], {name: [here]})
            check_eq(len(decoded), 1, "number of decoded sentences")
            tokens.append(list(decoded[0]))
        after = docs.view(features.rebuilt(d, tokens))
        check_eq([[t["lemma"] for t in s] for s in after["sents"]], expected, "decoded lemmas ({})".format(name))
        check_eq(features.no_lemma(after), features.no_lemma(before), "the rest of the document ({})".format(name))
        check_eq(docs.view(d), before, "document used for decoding ({})".format(name))


def run(case, ctx):
    case = dict(case, spec=extended(case["spec"], case.get("more", 0)))
    ctx.label("many lemmas", case.get("more"))
    documents = [docs.build(s) for s in split(case)]
    dataset = features.DataSet(documents)
    pairs = [(t.text, t.lemma) for d in documents for t in d.tokens]
    pairs = [(w["t"], w["l"]) for s in case["spec"]["sents"] for t in s["toks"] for w in t["words"]]
    lemmas = Counter(l for _, l in pairs)
    strangers = [stranger(w) for w in case["strangers"]]
    first = {0: None, 1: strangers_with_lemmas(case), 2: documents[-1:]}[case.get("first", 0)]

    # vocabulary
    _, labels_of, interpreter, initializer = features.assemble([LemmaDictExtractorProvider("lemma")], dataset, first)
    sizes = initializer.shapes()["lemma"]
    check_eq(dict(sizes), {"LEMMA": len(lemmas)}, "announced size of the vocabulary")
    labels = encode(labels_of, documents, "lemma")
    meaning = {}
    for ids, (_, lemma) in zip(labels, pairs):
        check(len(ids) == 1 and type(ids[0]) is int and 0 <= ids[0] < sizes["LEMMA"], "label outside of the announced size", ids, sizes)
        check_eq(meaning.setdefault(ids[0], lemma), lemma, "lemma with label {}".format(ids[0]))
    check_eq(len(meaning), len(lemmas), "number of different labels")
    decode(interpreter, documents, "lemma", labels, lambda word, ids, lemma: lemma)
    n = len(pairs)
    for i in range(sizes["LEMMA"]):
        decode(interpreter, documents[:1], "lemma", [[i]] * n, lambda word, ids, lemma: meaning[ids[0]])
        decode(interpreter, strangers, "lemma", [[i]] * len(strangers), lambda word, ids, lemma: meaning[ids[0]])

    # suffix rules
    rules = Counter()
    rule_of = []
    for word, lemma in pairs:
        w, l = word.lower(), lemma.lower()
        k = common(w, l)
        rule_of.append((w[k:], l[k:], k == 0))
    rules.update(rule_of)
    kept = {r for r, c in rules.items() if c > case["threshold"] or case["threshold"] == 0}
    top = {r for r, c in rules.items() if c == max(rules.values())}
    extract, labels_of, interpreter, initializer = features.assemble(
        [LemmaTransformationExtractorProvider("applicable", "rule", {"rules_threshold": case["threshold"]})], dataset, first)
    shapes = initializer.shapes()
    size = shapes["rule"]["LEMMA"]
    check_eq(list(shapes["rule"]), ["LEMMA"], "announced parts of rule labels")
    # the most frequent rule is always kept
    check_eq(size, len(kept) if kept else 1, "announced number of rules")
    check_eq(list(shapes["applicable"]), [size], "announced number of applicable rules")
    labels = encode(labels_of, documents, "rule")
    meaning = {}
    for ids, r in zip(labels, rule_of):
        check(len(ids) == 1 and type(ids[0]) is int and 0 <= ids[0] < size, "rule label outside of the announced size", ids, size)
        if r in kept:
            check_eq(meaning.setdefault(ids[0], r), r, "rule with label {}".format(ids[0]))
        elif not kept:
            check_eq(ids, [0], "label of a rule when only the most frequent one is kept")
        else:
            check_eq(ids, [0], "label of a rule below the threshold")
    if kept:
        check_eq(sorted(meaning), list(range(size)), "labels of kept rules")
        check(meaning[0] in top, "label 0 is not a most frequent rule", meaning[0], top)
    else:
        # found by decoding: the only rule
        candidates = [r for r in top]

    def by_rule(word, r):
        w = word.lower()
        return w[:len(w) - len(r[0])] + r[1] if w.endswith(r[0]) else w

    if kept:
        decode(interpreter, documents, "rule", labels,
               lambda word, ids, lemma: by_rule(word, meaning[ids[0]]))
        flat = iter(rule_of)
        check_eq([by_rule(w, r) for (w, _), r in zip(pairs, rule_of)], [l.lower() for _, l in pairs], "oracle")
        for i in range(size):
            decode(interpreter, documents[:1], "rule", [[i]] * n, lambda word, ids, lemma: by_rule(word, meaning[ids[0]]))
            decode(interpreter, strangers, "rule", [[i]] * len(strangers), lambda word, ids, lemma: by_rule(word, meaning[ids[0]]))
        for d in documents + strangers:
            for s in d.sentences:
                marks = features.plain(extract.get_features([s])["applicable"])
                expected = []
                for t in s.tokens:
                    w = t.text.lower()
                    expected.append([(w == meaning[i][0]) if meaning[i][2] else (len(w) > len(meaning[i][0]) and w.endswith(meaning[i][0])) for i in range(size)])
                check_eq([[bool(x) for x in m] for m in marks[0]], expected, "marked rules of {}".format([t.text for t in s.tokens]))
    elif len(candidates) == 1:
        decode(interpreter, documents, "rule", labels, lambda word, ids, lemma: by_rule(word, candidates[0]))

    # characters
    frequency, longest = case["min_frequency"], case["max_length"]
    chars = Counter(c for _, l in pairs for c in l)
    known = {c for c, k in chars.items() if k >= frequency}
    _, labels_of, interpreter, initializer = features.assemble(
        [LemmaCharExtractorProvider("chars", {"min_frequency": frequency, "max_word_length": longest, "segmenter": "char"})], dataset, first)
    size = initializer.shapes()["chars"][0]
    check_eq(size, len(known) + 4, "announced number of characters")
    labels = encode(labels_of, documents, "chars")
    code = {}
    for ids, (_, lemma) in zip(labels, pairs):
        check_eq(len(ids), longest, "length of a character label")
        check(all(type(i) is int and 0 <= i < size for i in ids), "character label outside of the announced size", ids, size)
        full = [2] + [c for c in lemma] + [3] + [0] * longest
        for i, c in zip(ids, full):
            if isinstance(c, int):
                check_eq(i, c, "mark in the label of {!r}".format(lemma))
            elif c in known:
                check(i >= 4, "reserved label of a kept character", c, i)
                check_eq(code.setdefault(c, i), i, "label of the character {!r}".format(c))
            else:
                check_eq(i, 1, "label of the character {!r}".format(c))
    check_eq(len(set(code.values())), len(code), "distinct labels of characters")
    decode(interpreter, documents, "chars", labels, lambda word, ids, lemma: "".join(c for c in lemma[:longest - 1] if c in known))
    back = {i: c for c, i in code.items()}
    # arbitrary predictions: everything up to the end mark
    some = sorted(back) + [0, 1, 2, 3]
    predictions = [[some[(j * 7 + q * 3 + len(pairs)) % len(some)] for q in range(longest)] for j in range(n)]
    decode(interpreter, documents, "chars", predictions,
           lambda word, ids, lemma: "".join(back[i] for i in ids[:ids.index(3) if 3 in ids else None] if i > 3))
    ctx.label("rules below the threshold", any(r not in kept for r in rules))
    ctx.label("exceptions", any(r[2] for r in kept))
    ctx.label("no rule above the threshold", not kept)
    ctx.label("lemma cut", any(len(l) + 2 > longest for l in lemmas))
    ctx.label("dropped characters", len(known) < len(chars))
    ctx.nontrivial(len(lemmas) >= 3 and (any(r not in kept for r in rules) or any(len(l) + 2 > longest for l in lemmas)))


CHECKS = [Check("labels", cases, run, quick=3000, thorough=80000, chunk=50),
          Check("large", lambda: cases(True), run, quick=80, thorough=3000, chunk=4)]
