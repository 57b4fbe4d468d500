import itertools
import pickle
import random

from hypothesis import strategies as st

from lib import gen
from lib.core import Check, check, check_eq, check_raises
from babylondigger.lemmas.transformation_rules import LemmaSuffixTransformation, LemmaTransformationTrie

PROPERTY = "C16"
RULE = ("cases are word/lemma pairs and rule sets with looked-up words, over small alphabets (many shared endings) and over Unicode, plus all pairs of words of up to "
        "four letters over two letters; non-trivial: word and lemma share a proper beginning, or at least two rules are found")
ASSUMPTIONS = ["regular rules in an index come from word/lemma pairs with a common beginning, words are not empty (as in annotated text)"]

SMALL = st.text("ab", max_size=5)
UNI = st.text(gen.MIXED + gen.BLANK, max_size=6)
LONG = st.builds(lambda w, n, e: w * n + e, st.text("abc", min_size=1, max_size=3), st.sampled_from([9, 20, 50, 200]), st.text("ab", max_size=3))
WORD = st.one_of(SMALL, st.text("abc", max_size=8), UNI, st.text(max_size=4), st.text("abc", max_size=8), UNI, LONG)
WIDE = "abcdefghijklmnopqrstuvwxyz" + "".join(map(chr, range(0x430, 0x450)))


@st.composite
def pairs(draw):
    stem = draw(st.one_of(st.just(""), WORD))
    return {"word": stem + draw(WORD), "lemma": stem + draw(WORD), "others": draw(st.lists(st.one_of(WORD, st.builds(lambda a: a + stem, SMALL)), max_size=5))}


def common(a, b):
    n = 0
    for x, y in zip(a, b):
        if x != y:
            break
        n += 1
    return n


def run_pair(case, ctx):
    word, lemma = case["word"], case["lemma"]
    rule = LemmaSuffixTransformation.get_rule(word, lemma)
    n = common(word, lemma)
    ctx.nontrivial(0 < n < len(word))
    ctx.label("exception", n == 0)
    check(rule.is_applicable(word), "the rule is not applicable to its own word", word, lemma)
    check_eq(rule.transform(word), lemma, "lemma by the rule derived from {!r} -> {!r}".format(word, lemma))
    check_eq((rule.word_suffix, rule.lemma_suffix), (word[n:], lemma[n:]), "endings of the rule for {!r} -> {!r}".format(word, lemma))
    check_eq(rule.is_regular, n > 0, "is_regular of the rule for {!r} -> {!r}".format(word, lemma))
    again = LemmaSuffixTransformation(word[n:], lemma[n:], n == 0)
    check(rule == again and hash(rule) == hash(again) and not (rule != again), "equal rules differ", word, lemma)
    check_eq(pickle.loads(pickle.dumps(rule)), rule, "rule after pickling")
    for other in case["others"] + [w + word for w in ("", "a", "b", "ab")] + [w + word[n:] for w in ("", "a", "xy")] + [word[:-1], lemma]:
        for r in (rule, LemmaSuffixTransformation(word[n:], lemma[n:]), LemmaSuffixTransformation(word[n:], lemma[n:], True)):
            fits = other[len(other) - len(word[n:]):] == word[n:] and len(other) >= len(word[n:])
            check_eq(r.is_applicable(other), fits, "is_applicable of {!r} to {!r}".format(r, other))
            if fits:
                check_eq(r.transform(other), other[:len(other) - len(word[n:])] + lemma[n:], "{!r} applied to {!r}".format(r, other))
            else:
                check_raises(ValueError, lambda: r.transform(other), "{!r} applied to {!r}".format(r, other))


def all_pairs():
    words = ["".join(w) for n in range(0, 5) for w in itertools.product("ab", repeat=n)]
    return ({"word": a, "lemma": b, "others": []} for a in words for b in words)


@st.composite
def indexes(draw):
    alphabet = draw(st.sampled_from(["a", "ab", "ab", "abc", gen.MIXED, "ab", "abc", WIDE]))
    word = st.text(alphabet, min_size=1, max_size=6)
    vocabulary = draw(st.lists(word, min_size=1, max_size=10))
    if alphabet == WIDE:  # many different endings, also below a common one
        tail = draw(st.sampled_from(["", "a", "ba"]))
        vocabulary += [c + tail for c in WIDE[draw(st.integers(0, 20)):]]
    elif draw(st.integers(0, 11)) == 5:
        vocabulary += [w * 15 for w in vocabulary[:3]]
    pick = st.sampled_from(vocabulary)
    endings = st.one_of(st.builds(lambda w, k: w[k % (len(w) + 1):], pick, st.integers(0, 7)), st.text(alphabet, max_size=3))
    rules = draw(st.lists(st.tuples(endings, st.text(alphabet, max_size=2), st.booleans()), max_size=14))
    # an exception stands for a whole word, which is not empty
    rules = [[s or ("a" if exc else ""), l, exc] for s, l, exc in rules]
    unique = []
    for r in rules:
        if r not in unique:
            unique.append(r)
    if alphabet == WIDE:
        unique += [r for r in ([w[-2:], "a", False] for w in vocabulary[-30:]) if r not in unique]
    looked_up = draw(st.lists(st.one_of(pick, word, st.builds(lambda a, b: a + b, word, endings)), min_size=1, max_size=8))
    return {"rules": unique, "words": [w for w in looked_up if w] or ["a"], "ids": draw(st.permutations(range(len(unique)))), "pairs": draw(st.booleans()),
            "lemmas": draw(st.lists(st.text(alphabet, max_size=4), min_size=1, max_size=4)), "vocabulary": vocabulary}


@st.composite
def many(draw):
    return {"seed": draw(st.integers(0, 10 ** 6)), "n": draw(st.sampled_from([300, 70, 150, 600])), "alphabet": draw(st.sampled_from(["ab", "abc", "abcdefghij", WIDE])),
            "pairs": draw(st.booleans()), "lemmas": draw(st.lists(st.text("abc", max_size=4), min_size=1, max_size=2))}


def run_many(case, ctx):
    rnd = random.Random(case["seed"])
    word = lambda low, high: "".join(rnd.choice(case["alphabet"]) for _ in range(rnd.randint(low, high)))
    vocabulary = [word(1, 12) for _ in range(case["n"])]
    rules = []
    for w in vocabulary:
        exception = rnd.random() < 0.3
        r = [w if exception else w[rnd.randint(0, len(w)):], word(0, 2), exception]
        if r not in rules:
            rules.append(r)
    ids = list(range(len(rules)))
    rnd.shuffle(ids)
    run_index({"rules": rules, "ids": ids, "words": rnd.sample(vocabulary, 20) + [word(1, 3) + w for w in rnd.sample(vocabulary, 20)], "pairs": case["pairs"], "lemmas": case["lemmas"],
               "vocabulary": vocabulary}, ctx)


def run_index(case, ctx):
    if case["pairs"]:
        # the rules of a real vocabulary
        rules, ids = [], []
        for w in case["vocabulary"]:
            for l in case["lemmas"] + [w, w[:1] + "z"]:
                r = LemmaSuffixTransformation.get_rule(w, l)
                if r not in rules:
                    rules.append(r)
        ids = list(range(len(rules)))
    else:
        rules = [LemmaSuffixTransformation(*r) for r in case["rules"]]
        ids = case["ids"]
    entries = list(zip(rules, ids))
    index = LemmaTransformationTrie.build(iter(entries))
    index2 = pickle.loads(pickle.dumps(index))
    found = 0
    for w in case["words"] + (case["vocabulary"] if case["pairs"] else []):
        expected = sorted((i for r, i in entries if (r.word_suffix == w if not r.is_regular else (w.endswith(r.word_suffix) and len(r.word_suffix) < len(w)))))
        found = max(found, len(expected))
        for ind, what in ((index, "index"), (index, "index, again"), (index2, "index after pickling")):
            got = list(ind.get_applicable_rules(w))
            check_eq(sorted(i for _, i in got), expected, "rules found for {!r} in the {}".format(w, what))
            for r, i in got:
                check_eq(r, rules[ids.index(i)], "rule number {}".format(i))
            for r, _ in got:
                check(r.is_applicable(w), "found rule is not applicable", r, w)
    ctx.nontrivial(found >= 2)
    ctx.label("nothing found", found == 0)
    ctx.label("rules of a vocabulary", case["pairs"])


CHECKS = [Check("pairs", pairs, run_pair, quick=8000, thorough=300000, chunk=100, exhaustive=all_pairs),
          Check("index", indexes, run_index, quick=10000, thorough=400000, chunk=100),
          Check("many rules", many, run_many, quick=120, thorough=4000, chunk=3)]
