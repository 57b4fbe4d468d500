from collections import Counter

from hypothesis import strategies as st

from lib import docs, features, gen
from lib.core import Check, check, check_eq
from babylondigger.features.provider import PosDictExtractorProvider

PROPERTY = "C17"
RULE = ("cases are training data over a generated tag set (with missing parts), encoded and decoded in all four splitting modes, alone and in batches; non-trivial: "
        "at least three different tags, one of them with features")
ASSUMPTIONS = ["every token of training data has a tag object, as documents read from files do (its parts may be missing)",
               "features are not called UPOS or XPOS"]

MODES = ("pos_joint", "pos_XF", "pos_UXF", "pos_gran")
KEYS = st.sampled_from(["Case", "Number", "a", "A", "Tense", "FEATS", "POS", "é"])
VALS = st.sampled_from(["Nom", "Sing", "a", "b", "Acc", "0", "", "None"])
TAG = st.tuples(st.one_of(st.none(), st.sampled_from(["NOUN", "VERB", "a", "", "X", "PUNCT"])), st.one_of(st.none(), st.sampled_from(["NN", "VB", "a", "", "NOUN"])),
                st.one_of(st.just({}), st.dictionaries(KEYS, VALS, max_size=3)))


@st.composite
def cases(draw, always=False):
    n_tags = draw(st.sampled_from([5, 3, 8, 12, 1, 2]))
    tags = draw(st.lists(TAG, min_size=n_tags, max_size=n_tags))
    tags = [list(t) for t in tags]
    weights = draw(st.sampled_from([1, 1, 2, 3]))  # skew of the tag distribution
    spec = draw(gen.documents(n_sents=(3, 6, 9), max_tokens=(8, 14), pool_size=4))
    spec = {"sents": spec["sents"] or [{"tree": False, "toks": [{"form": "a", "sp": True, "mwt": False, "words": [{"t": "a", "l": None, "h": None, "d": None}]}]}]}
    n = sum(len(t["words"]) for s in spec["sents"] for t in s["toks"])
    salt = draw(st.sampled_from([1, 0, 7, 13]))  # generated bytes are mostly 0: spread the tags
    picks = [b + salt * j for j, b in enumerate(draw(st.binary(min_size=n, max_size=n)))]
    i = 0
    for s in spec["sents"]:
        for t in s["toks"]:
            for w in t["words"]:
                k = picks[i] % (len(tags) * weights)
                w["u"], w["x"], w["f"] = tags[k if k < len(tags) else 0]
                w["p"] = True
                i += 1
    return {"more": draw(st.sampled_from([60, 150, 300])) if always or draw(MORE) == 31 else 0, "spec": spec, "cut": draw(st.integers(1, 4)), "order": draw(st.integers(0, 23)), "unseen": draw(TAG), "odd": draw(st.sampled_from(["zz", "Zz", "~"]))}


MORE = st.integers(0, 59)


def extended(spec, n):
    """the same with n more words, most of which have a tag of their own"""
    words = []
    for j in range(n):
        f = {"K%d" % (j % 7): "v%d" % (j % 13)}
        if j % 3 == 0:
            f["Q%d" % (j % 31)] = "w"
        if j % 100 == 59:
            f["Rare%d" % j] = "x"
        words.append({"t": "m%d" % j, "l": None, "h": None, "d": None, "p": True, "u": "T%d" % (j % 61) if j % 19 else None, "x": "X%d" % j if j % 2 else "X", "f": f})
    return {"sents": spec["sents"] + [{"tree": False, "toks": [{"form": w["t"], "sp": True, "mwt": False, "words": [w]} for w in words[i:i + 40]]} for i in range(0, n, 40)]}


def parts(mode, tag, keys):
    u, x, f = tag
    f = tuple(sorted(f.items()))
    if mode == "pos_joint":
        return {"POS": (u, x, f)}
    if mode == "pos_XF":
        return {"UPOS": u, "XPOS+FEATS": (x, f)}
    if mode == "pos_UXF":
        return {"UPOS": u, "XPOS": x, "FEATS": f}
    result = {"UPOS": u, "XPOS": x}
    result.update({k: dict(f).get(k) for k in keys})
    return result


def run(case, ctx):
    spec = extended(case["spec"], case.get("more", 0))
    ctx.label("many tags", case.get("more"))
    k = case["cut"]
    specs = [{"sents": spec["sents"][i:i + k]} for i in range(0, len(spec["sents"]), k)]
    documents = [docs.build(s) for s in specs]
    first = {0: documents[-1:], 1: [docs.build(extended({"sents": []}, 9))]}.get(case["order"] % 3)  # the builders were used with other documents before
    tags = [(w["u"], w["x"], w["f"]) for s in spec["sents"] for t in s["toks"] for w in t["words"]]
    keys = sorted({key for _, _, f in tags for key in f})
    ctx.nontrivial(len({repr(t) for t in tags}) >= 3 and bool(keys))
    ctx.label("missing parts", any(u is None or x is None for u, x, _ in tags))
    ctx.label("multiword", any(t["mwt"] for s in spec["sents"] for t in s["toks"]))
    for mode in MODES:
        what = mode + ": "
        counts = {}
        for tag in tags:
            for part, value in parts(mode, tag, keys).items():
                counts.setdefault(part, Counter())[value] += 1
        dataset = features.DataSet(documents)
        _, labels_of, interpreter, initializer = features.assemble([PosDictExtractorProvider("pos", mode)], dataset, first)
        sizes = initializer.shapes()["pos"]
        names = list(sizes)
        check_eq(sorted(names), sorted(counts), what + "announced parts")
        check_eq({n: sizes[n] for n in names}, {n: len(c) for n, c in counts.items()}, what + "announced sizes")
        all_labels = []
        example = None
        for d in documents:
            before = docs.view(d)
            tokens = []
            for sentence in d.sentences:
                encoded = features.plain(labels_of.get_features([sentence])["pos"])
                check_eq((len(encoded), len(encoded[0])), (1, sentence.tokens_count), what + "shape of the labels")
                for ids in encoded[0]:
                    check_eq(len(ids), len(names), what + "number of label parts")
                    for name, i in zip(names, ids):
                        check(type(i) is int and 0 <= i < sizes[name], what + "label outside of the announced size", name, i, sizes[name])
                all_labels.extend(encoded[0])
                decoded = interpreter.interpret([sentence], {"pos": encoded})
                check_eq(len(decoded), 1, what + "number of decoded sentences")
                decoded = list(decoded[0])
                check_eq(len(decoded), sentence.tokens_count, what + "number of decoded tokens")
                tokens.append(decoded)
                example = example or (sentence, encoded, d)
            after = features.rebuilt(d, tokens)
            check_eq(docs.view(after), before, what + "document after encoding and decoding its tags")
            check_eq(docs.view(d), before, what + "document used for encoding")
            for a, b in zip(after.tokens, d.tokens):
                check(a.pos == b.pos and hash(a.pos) == hash(b.pos), what + "tags differ", a.pos, b.pos)
        check_eq(len(all_labels), len(tags), what + "number of labels")
        # equal parts have equal labels, and distinct parts distinct ones
        decoding = {name: {} for name in names}
        for ids, tag in zip(all_labels, tags):
            values = parts(mode, tag, keys)
            for name, i in zip(names, ids):
                check_eq(decoding[name].setdefault(i, values[name]), values[name], what + "value with label {} of {}".format(i, name))
        for name in names:
            check_eq(len(decoding[name]), len(counts[name]), what + "different labels of " + name)
            top = max(counts[name].values())
            check_eq(counts[name][decoding[name][0]], top, what + "frequency of label 0 of " + name)
        # any label of one part, with any other parts, decodes to the value of this part
        sentence, encoded, d = example
        for p, name in enumerate(names):
            for i in range(sizes[name]):
                changed = [[list(ids) for ids in encoded[0]]]
                changed[0][0][p] = i
                result = list(interpreter.interpret([sentence], {"pos": changed})[0])
                pos = docs.pos_tuple(result[0].pos)
                expected = {n: decoding[n][j] for n, j in zip(names, changed[0][0])}
                check_eq(parts(mode, pos, keys), expected, what + "tag with label {} of {}".format(i, name))
                check_eq([docs.pos_tuple(t.pos) for t in result[1:]], [docs.pos_tuple(t.pos) for t in list(sentence.tokens)[1:]], what + "tags of the other tokens")
        # values unseen in training
        u, x, f = case["unseen"]
        for unseen in ((case["odd"], x, f), (u, case["odd"], f), (u, x, dict(f, **{case["odd"]: "b"})), (u, x, {key: case["odd"] for key in keys})):
            other = docs.build({"sents": [{"toks": [{"form": "q", "sp": True, "mwt": False, "words": [dict(t="q", l=None, u=unseen[0], x=unseen[1], f=unseen[2], p=True)]}]}]})
            ids = features.plain(labels_of.get_features(list(other.sentences))["pos"])[0][0]
            values = parts(mode, unseen, keys)
            known = {n: {v: i for i, v in decoding[n].items()} for n in names}
            check_eq(dict(zip(names, ids)), {n: known[n].get(values[n], 0) for n in names}, what + "labels of the tag {}".format(unseen))
        # order of the training data
        if all(sorted(c.values())[-2:].count(max(c.values())) == 1 for c in counts.values()):
            ctx.label("no tie in " + mode)
            shuffled = list(documents)
            r = case["order"]
            for j in range(len(shuffled) - 1, 0, -1):
                r, q = r // 3, r % (j + 1)
                shuffled[j], shuffled[q] = shuffled[q], shuffled[j]
            for data in (shuffled, documents[::-1], documents + documents):
                _, labels2, interpreter2, initializer2 = features.assemble([PosDictExtractorProvider("pos", mode)], features.DataSet(data))
                check_eq(list(initializer2.shapes()["pos"].items()), list(sizes.items()), what + "sizes with another order of the documents")
                got = [ids for d in documents for s in d.sentences for ids in features.plain(labels2.get_features([s])["pos"])[0]]
                check_eq(got, all_labels, what + "labels with another order of the documents")


CHECKS = [Check("labels", cases, run, quick=2400, thorough=80000, chunk=50),
          Check("large", lambda: cases(True), run, quick=80, thorough=3000, chunk=4)]
