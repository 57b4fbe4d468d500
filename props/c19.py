import os
from collections import Counter

from hypothesis import strategies as st

import morfessor

from lib import docs, features, gen
from lib.features import bpe
from lib.core import Check, check, check_eq, check_raises
from babylondigger.features.provider import WordEmbeddingExtractorProvider, TrainableWordEmbeddingExtractorProvider, \
    SubwordEmbeddingExtractorProvider, SubwordsExtractorProvider

PROPERTY = "C19"
RULE = ("cases are embedding files (with and without header, faulty ones too), training data, thresholds, case settings and segmenters (characters, byte pairs by a "
        "stand-in, real Morfessor models), looked up for known and unknown words; non-trivial: known and unknown units are both looked up")
ASSUMPTIONS = ["vocabulary entries of embedding files contain no white space and are given once (else one of the given vectors is used); a file without header has at least two dimensions"]

PADDING, OOV, START, END = 0, 1, 2, 3
ALPHABETS = ["ab", "abA", "abcAB", "aİßÉéΣσς中😀", "ab\u2581"]


def form_ok(s):
    return len(s) > 0 and not s[0].isspace() and not any(c in s for c in "\t\n\r")


@st.composite
def texts(draw, alphabet):
    """documents given by their words: [[[word, ..] sentence, ..] document, ..]"""
    word = st.text(alphabet, min_size=1, max_size=6)
    vocabulary = draw(st.lists(st.one_of(word, word, st.tuples(word, st.text(alphabet, min_size=1, max_size=3)).map(" ".join)), min_size=2, max_size=8))
    result = []
    for _ in range(draw(st.sampled_from([1, 2, 3]))):
        sents = []
        for _ in range(draw(st.sampled_from([1, 2, 3]))):
            n = draw(st.sampled_from([3, 1, 6, 9]))
            salt = draw(st.sampled_from([1, 0, 3]))
            sents.append([vocabulary[(b + salt * j) % len(vocabulary)] for j, b in enumerate(draw(st.binary(min_size=n, max_size=n)))])
        result.append(sents)
    return result


def build(words, mwt_every=0):
    """every mwt_every-th token becomes a multiword token of which the words are the given ones"""
    toks_of = []
    k = 0
    for sent in words:
        toks = []
        for w in sent:
            k += 1
            ws = [dict(t=w, l=None, u=None, x=None, f={}, p=False, h=None, d=None)]
            if mwt_every and k % mwt_every == 0:
                toks.append({"form": "surface" + w, "sp": True, "mwt": True, "words": ws})
            else:
                toks.append({"form": w, "sp": True, "mwt": False, "words": ws})
        toks_of.append({"toks": toks})
    return docs.build({"sents": toks_of})


MORE = st.integers(0, 59)


@st.composite
def word_files(draw, always=False):
    alphabet = draw(st.sampled_from(ALPHABETS))
    entries = draw(st.lists(st.one_of(st.text(alphabet, min_size=1, max_size=5), st.text(gen.MIXED, min_size=1, max_size=4)), max_size=10, unique=True))
    entries = [e for e in entries if e.split() == [e]]
    dim = draw(st.integers(1, 4))
    header = dim == 1 or draw(st.booleans()) or not entries
    if entries and draw(st.integers(0, 4)) == 3:
        entries.append(draw(st.sampled_from(entries)))
    vectors = [[draw(st.sampled_from([0.0, 0.5, -1.25, 3.0, 1e-05, -7.0, 0.1, 1.23456789e-08, -0.30000000000000004, 123456.789, 1e20])) for _ in range(dim)] for _ in entries]
    known = st.sampled_from(entries) if entries else st.just("zz")
    words = draw(st.lists(st.one_of(known, known.map(str.upper), known.map(str.lower), known.map(str.title), st.text(alphabet, min_size=1, max_size=4)), min_size=1, max_size=10))
    fault = draw(st.sampled_from([None, None, None, None, "header", "short", "long"])) if entries else None
    return {"entries": entries, "vectors": vectors, "dim": dim, "header": header, "fault": fault, "where": draw(st.integers(0, 20)), "words": [w for w in words if form_ok(w)] or ["a"],
            "lowercase": draw(st.booleans()), "mwt": draw(st.sampled_from([0, 2, 3])), "extra_space": draw(st.booleans()),
            "more": draw(st.sampled_from([60, 300, 1200])) if always or draw(MORE) == 31 else 0}


def write_embeddings(path, case):
    vectors = [list(v) for v in case["vectors"]]
    dim = case["dim"]
    bad = None
    if case["fault"] in ("short", "long"):
        bad = case["where"] % len(vectors)
        if case["fault"] == "short" and dim > 1:
            vectors[bad].pop()
        else:
            vectors[bad].append(1.5)
        if not case["header"] and len(vectors) == 1:
            return False  # the only line defines the size
        if not case["header"] and bad == 0 and len(vectors[0]) == 1:
            return None
    with open(path, "w", encoding="utf-8") as f:
        if case["header"]:
            f.write("{} {}\n".format(len(vectors), dim + (1 if case["fault"] == "header" else 0)))
        for w, v in zip(case["entries"], vectors):
            sep = {3: "\t", 4: "  "}.get(case["where"] % 5, " ")
            f.write(w + sep + sep.join(map(repr, v)) + (" " if case["extra_space"] else "") + "\n")
    return case["fault"] is not None and not (case["fault"] == "header" and not case["header"])


def ids_of(extractor, document, name, **kwargs):
    result = []
    for s in document.sentences:
        values = features.plain(extractor.get_features([s], **kwargs)[name])
        check_eq((len(values), len(values[0])), (1, s.tokens_count), "shape of the feature")
        result.extend(values[0])
    return result


def matrix(initializer, name, shape):
    """rows given explicitly by the initializer, looked at twice (it must be repeatable)"""
    rows = {}
    for _ in range(2):
        current = {}
        for i, v in initializer.initial_values()[name]:
            check(type(i) is int and 0 <= i < shape[0], "row outside of the announced matrix", i, shape)
            check_eq(len(v), shape[1], "length of row {}".format(i))
            check(i not in current, "row given twice", i)
            current[i] = [float(x) for x in v]
        check(not rows or rows == current, "rows differ when they are asked for again")
        rows = current
    return rows


def given(case):
    result = {}
    for e, v in zip(case["entries"], case["vectors"]):
        result.setdefault(e, []).append([float(x) for x in v])
    return result


def run_words(case, ctx):
    more = case.get("more", 0)
    if more:  # a large vocabulary
        case = dict(case, entries=case["entries"] + ["m%d" % j for j in range(more)], vectors=case["vectors"] + [([j / 8.0, -j / 4.0] * 2)[:case["dim"]] for j in range(more)],
                    words=case["words"] + ["m%d" % j for j in range(0, more, 7)] + ["m%d" % (more + 1), "M3"], header=case["header"] or not case["entries"])
    ctx.label("large", more)
    path = os.path.join(ctx.scratch(), "vectors.txt")
    faulty = write_embeddings(path, case)
    if faulty is None:
        return
    provider = WordEmbeddingExtractorProvider("word", "word_init", {"path": path, "lowercase": case["lowercase"]})
    document = build([case["words"]], case["mwt"])
    dataset = features.DataSet([document])
    if faulty:
        ctx.label("faulty")
        ctx.nontrivial()
        check_raises(ValueError, lambda: features.assemble([provider], dataset), "vectors of different lengths")
        return
    if case["fault"] and case["header"] is False and len(case["vectors"]) == 1:
        return
    extractor, _, _, initializer = features.assemble([provider], dataset, [document] if case["where"] % 2 else None)
    shape = list(initializer.shapes()["word_init"])
    vectors = given(case)
    check_eq(shape, [len(vectors) + 2, case["dim"]], "announced shape")
    rows = matrix(initializer, "word_init", shape)
    ids = ids_of(extractor, document, "word")
    seen = {}
    found = [0, 0]
    for word, i in zip(case["words"], ids):
        key = word.lower() if case["lowercase"] else word
        check(type(i) is int and 0 <= i < shape[0], "identifier outside of the announced size", i, shape)
        if key in vectors:
            found[0] += 1
            check(i not in (PADDING, OOV), "reserved identifier of a known word", word, i)
            check(rows[i] in vectors[key], "vector of a word", word, rows[i], vectors[key])
            check_eq(seen.setdefault(i, key), key, "word with identifier {}".format(i))
        else:
            found[1] += 1
            check_eq(i, OOV, "identifier of the unknown word {!r}".format(word))
    check_eq(rows.get(PADDING), [0.0] * case["dim"], "padding row")
    check_eq(len([i for i in rows if i > 1]), len(vectors), "number of rows of known words")
    # every entry is reachable under its own identifier
    if vectors:
        entries = sorted(e for e in vectors if form_ok(e))
        if entries:
            everything = ids_of(extractor, build([entries]), "word")
            for e, i in zip(entries, everything):
                if not case["lowercase"] or e.lower() == e:
                    check(rows[i] in vectors[e] and i > 1, "vector of an entry", e, i)
            if not case["lowercase"]:
                check_eq(len(set(everything)), len(entries), "distinct identifiers of entries")
    ctx.label("known", found[0] > 0)
    ctx.label("unknown", found[1] > 0)
    ctx.nontrivial(found[0] > 0 and found[1] > 0)


@st.composite
def trained(draw, always=False):
    alphabet = draw(st.sampled_from(ALPHABETS))
    kind = draw(st.sampled_from(["words", "chars", "chars", "bpe", "morfessor"]))
    train = draw(texts(alphabet))
    return {"train": train, "test": draw(texts(alphabet)), "kind": kind, "min_frequency": draw(st.sampled_from([0, 1, 2, 2, 3, 5])), "lowercase": draw(st.booleans()),
            "size": draw(st.integers(1, 3)), "mwt": draw(st.sampled_from([0, 2])), "file": kind != "words" and draw(st.booleans()),
            "segmentation": draw(st.lists(st.lists(st.text(alphabet, min_size=1, max_size=3), min_size=1, max_size=3), min_size=1, max_size=5)),
            "dim": draw(st.integers(2, 3)), "known": draw(st.integers(0, 5)), "earlier": draw(st.integers(0, 3)), "more": draw(st.sampled_from([60, 300, 1200])) if always or draw(MORE) == 31 else 0}


def run_trained(case, ctx):
    scratch = ctx.scratch()
    more = case.get("more", 0)
    if more:  # a large vocabulary: words with characters of their own, and a long word
        unit = lambda j: "m%d%s" % (j, chr(0x4e00 + j))
        case = dict(case, train=case["train"] + [[[unit(j) for j in range(i, min(i + 30, more)) for _ in range(1 + (j + i) % 6)] for i in range(0, more, 30)]],
                    test=case["test"] + [[[unit(j) for j in range(0, more + 30, 11)], ["".join(unit(j) for j in range(0, more, 9))]]])
    ctx.label("large", more)
    train = [build(d, case["mwt"]) for d in case["train"]]
    dataset = features.DataSet(train)
    kind = case["kind"]
    ctx.label(kind + (" (file)" if case["file"] else ""))
    config = {"min_frequency": case["min_frequency"], "lowercase": case["lowercase"]}
    if kind == "words":
        segment = (lambda w: [w.lower()]) if case["lowercase"] else (lambda w: [w])
    elif kind == "chars":
        config["segmenter"] = "char"
        segment = list
    elif kind == "bpe":
        config.update(segmenter="bpe", segmenter_config={"language": "xx", "vocab_size": case["size"]})

        def segment(w):
            pieces = bpe(w, case["size"])
            pieces[0] = pieces[0][1:]
            return [p for k, p in enumerate(pieces) if p or k]
    else:
        path = os.path.join(scratch, "segmentation.txt")
        with open(path, "w", encoding="utf-8") as f:
            for parts in case["segmentation"]:
                f.write("1 " + " + ".join(parts) + "\n")
        config.update(segmenter="morfessor", segmenter_config={"path": path})
        model = morfessor.MorfessorIO().read_any_model(path)
        segment = lambda w: model.viterbi_segment(w)[0]
    counts = Counter(u for d in case["train"] for s in d for w in s for u in segment(w))
    first = 2 if kind == "words" else 4
    vectors = None
    if case["file"]:
        # a file decides which subwords are known
        units = sorted(u for u in counts if u.split() == [u])
        units = [u for k, u in enumerate(units) if k % 6 != case["known"]] + ["zz"]
        vectors = {u: [float(k), -k / 7, 0.5e-9][:case["dim"]] for k, u in enumerate(units)}
        path = os.path.join(scratch, "subwords.txt")
        with open(path, "w", encoding="utf-8") as f:
            for u, v in vectors.items():
                f.write(u + " " + " ".join(map(repr, v)) + "\n")
        config["embedding_path"] = path
        known = set(vectors)
        make = lambda: SubwordEmbeddingExtractorProvider("unit", "unit_init", dict(config))
        shape_name = "unit_init"
    else:
        known = {u for u, c in counts.items() if c >= case["min_frequency"]}
        make = lambda: (TrainableWordEmbeddingExtractorProvider if kind == "words" else SubwordsExtractorProvider)("unit", dict(config))
        shape_name = "unit"
    earlier = {1: [build([["zq", "Á", "ba"], ["zq"]])], 2: train[:1]}.get(case.get("earlier"))  # the builders were used with other documents before
    extractor, _, _, initializer = features.assemble([make()], dataset, earlier)
    shape = list(initializer.shapes()[shape_name])
    check_eq(shape[0], len(known) + first, "announced size")
    check_eq(len(shape), 2 if case["file"] else 1, "announced shape")
    code = {}
    stats = [0, 0]
    test = [build(d) for d in case["test"]]
    extractor2, _, _, _ = features.assemble([make()], features.DataSet(train[::-1] if not case["file"] else train))
    for d, words in zip(train + test, case["train"] + case["test"]):
        flat = [w for s in words for w in s]
        ids = ids_of(extractor, d, "unit")
        check_eq(ids_of(extractor2, d, "unit"), ids, "identifiers by a second extractor for the same training data")
        check_eq(len(ids), len(flat), "number of words")
        for w, values in zip(flat, ids):
            if kind == "words":
                values = [values]
                units = segment(w)
            else:
                units = segment(w)
                # the feature of the other words of the sentence may be longer
                while values and values[-1] == PADDING:
                    values = values[:-1]
                check_eq((values[0], values[-1]), (START, END), "marks around the subwords of {!r}".format(w))
                values = values[1:-1]
            check_eq(len(values), len(units), "number of subwords of {!r}".format(w))
            for u, i in zip(units, values):
                check(type(i) is int and i < shape[0], "identifier outside of the announced size", u, i, shape)
                if u in known:
                    stats[0] += 1
                    check(i >= first, "reserved identifier of a known unit", u, i)
                    check_eq(code.setdefault(u, i), i, "identifier of {!r}".format(u))
                else:
                    stats[1] += 1
                    check_eq(i, OOV, "identifier of the unknown unit {!r}".format(u))
    check_eq(len(set(code.values())), len(code), "distinct identifiers")
    if vectors is not None:
        rows = matrix(initializer, "unit_init", shape)
        check_eq(rows.get(PADDING), [0.0] * case["dim"], "padding row")
        for u, i in code.items():
            check_eq(rows[i], vectors[u], "vector of the subword {!r}".format(u))
        check_eq(len([i for i in rows if i >= first]), len(vectors), "number of rows of known subwords")
    ctx.label("known", stats[0] > 0)
    ctx.label("unknown", stats[1] > 0)
    ctx.nontrivial(stats[0] > 0 and stats[1] > 0)


CHECKS = [Check("word files", word_files, run_words, quick=4000, thorough=100000, chunk=50),
          Check("units", trained, run_trained, quick=5000, thorough=150000, chunk=50),
          Check("word files, large", lambda: word_files(True), run_words, quick=60, thorough=2000, chunk=4),
          Check("units, large", lambda: trained(True), run_trained, quick=60, thorough=2000, chunk=4)]
