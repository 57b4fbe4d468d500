import argparse
import contextlib
import io
import os
import random
import sys
from copy import deepcopy
from io import StringIO

from hypothesis import strategies as st

from lib import gen, conllu, udref, udscore, ud_official
from lib.core import Check, HarnessError, Violation, check, check_eq

from babylondigger.evaluation import conll17_ud_eval as ud_eval
from babylondigger.evaluation.conll17_ud_eval import load_conllu, evaluate, UDError

PROPERTY = "C10"
RULE = ("cases are two CoNLL-U texts over the same characters with independent or slightly differing segmentation into tokens, multiword tokens, words and "
        "sentences, independent or slightly differing annotation, and optional relation weights; non-trivial: at least three words on both sides "
        "and a difference in segmentation or annotation")
ASSUMPTIONS = ["scores are compared up to 1e-9"]

FORM_CHARS = "abABxX"
UNI_CHARS = "ab\u0130\u00df\u1e9e\u03a3\u03c3\u017fs\U00010400\U00010428 "
RELS = ["root", "nsubj", "obj", "det", "punct", "case", "nsubj:pass", "det:x", "aux", "cc", "clf", "cop", "mark", "conj", "punctx", ":a", "_", "AUX"]
# every relation of Universal Dependencies (versions 1 and 2), with names that begin like those left out by CLAS
ALL_RELS = sorted(set(RELS) | set((
    "acl acl:relcl advcl advmod amod appos aux:pass auxpass ccomp compound compound:prt conj csubj csubj:pass csubjpass dep det:predet discourse "
    "dislocated dobj expl expl:pv fixed flat flat:name foreign goeswith iobj list mwe name neg nmod nmod:poss nsubjpass nummod obl obl:agent "
    "orphan parataxis remnant reparandum vocative xcomp caseX a#b mark# # case:punct cc:preconj cop:x clf:x mark:x punct:x").split()))


@st.composite
def pair(draw):
    alphabet = draw(st.sampled_from([FORM_CHARS, FORM_CHARS, UNI_CHARS]))
    n = draw(gen.sizes(0, 12, 60))
    chars = draw(st.text(alphabet.replace(" ", ""), min_size=n, max_size=n))
    rels = draw(st.lists(st.sampled_from(RELS), min_size=1, max_size=5))
    gold = draw_side(draw, chars, alphabet, rels)
    mode = draw(st.sampled_from(["independent", "words", "same tokens", "same words", "same words", "edited", "edited"]))
    if mode == "independent":
        system = draw_side(draw, chars, alphabet, rels)
    else:
        system = deepcopy(gold)
        if mode == "edited":
            edit(draw, system, alphabet)
            system = annotate(draw, [[t for t in s["toks"]] for s in system["sents"]], rels, 3)
        elif mode == "words":  # same surface tokens, other words
            for s in system["sents"]:
                for t in s["toks"]:
                    if draw(st.integers(0, 2)) == 0:
                        set_words(draw, t, alphabet)
            system = annotate(draw, [s["toks"] for s in system["sents"]], rels, 3)
        elif mode == "same tokens":
            toks = [t for s in system["sents"] for t in s["toks"]]
            system = annotate(draw, split(draw, toks), rels, 3)
        else:
            change = draw(st.binary(min_size=1, max_size=30))
            k = 0
            for s in system["sents"]:
                ws = gen.words_of(s)
                for w in ws:
                    c = change[k % len(change)] + k
                    k += 1
                    if c % 7 == 0:
                        w["u"] = "U9"
                    if c % 11 == 0:
                        w["x"] = "X9"
                    if c % 13 == 0:
                        w["f"] = {"Z": "9"}
                    if c % 5 == 0:
                        w["l"] = "l9"
                    if c % 3 == 0:
                        w["d"] = rels[c % len(rels)]
                if change[0] % 2:
                    for w, h in zip(ws, gen.tree_from_codes(draw(gen._CODES(len(ws))))):
                        w["h"] = h
    bad = draw(st.integers(0, 19)) == 13
    if draw(st.integers(0, 4)) == 2:
        swap = dict(zip(rels, draw(st.lists(st.sampled_from(ALL_RELS), min_size=len(rels), max_size=len(rels)))))
        for side in (gold, system):
            for s in side["sents"]:
                for w in gen.words_of(s):
                    w["d"] = swap.get(w["d"], w["d"])
        rels = list(swap.values())
    weights = draw(st.one_of(st.none(), st.dictionaries(st.sampled_from([r.split(":")[0] for r in rels + RELS]), st.sampled_from([0.0, 0.5, 1.0, 2.0, 0.1]), max_size=4)))
    return {"gold": gold, "system": system, "bad": bad, "weights": weights, "mode": mode, "deco": draw(conllu.decorations()), "cli": draw(st.integers(0, 9)) == 7}


def every_relation():
    """each relation beside the root, attached rightly and wrongly, with and without a weight"""
    def side(rel, heads):
        ws = [dict(t=t, l="l", u="U", x="X", f={}, h=h, d=d) for t, h, d in zip("abc", heads, ("root", rel, "nsubj"))]
        return {"sents": [{"toks": [dict(form=w["t"], sp=True, mwt=False, words=[w]) for w in ws], "tree": True}]}
    deco = {"comments": [], "empty": [], "misc": [0], "eol": "\n"}
    for rel in ALL_RELS:
        for system in (side(rel, (0, 1, 1)), side(rel, (0, 3, 1)), side("obj", (0, 1, 2)), side(rel, (2, 0, 2))):
            for weights in (None, {rel.split(":")[0]: 0.5}):
                yield {"gold": side(rel, (0, 1, 2)), "system": system, "bad": False, "weights": weights, "mode": "every relation", "deco": deco,
                       "cli": weights is not None}


def set_words(draw, t, alphabet):
    kind = draw(st.integers(0, 3))
    if kind == 0:
        t["mwt"], t["words"] = False, [{"t": t["form"]}]
    elif kind == 1:  # parts of the form, possibly in other case
        f = t["form"]
        cuts = sorted(draw(st.sets(st.integers(0, len(f)), max_size=3)) | {0, len(f)})
        parts = [f[a:b] for a, b in zip(cuts, cuts[1:])]
        parts = [p.swapcase() if draw(st.integers(0, 3)) == 0 else p for p in parts]
        t["mwt"], t["words"] = True, [{"t": p} for p in parts if p.strip(" ")] or [{"t": f}]
    else:
        n = draw(gen.sizes(1, 3, 8))
        t["mwt"] = True
        t["words"] = [{"t": draw(st.text(alphabet, min_size=1, max_size=2).filter(lambda s: s.strip(" ") != ""))} for _ in range(n)]


def draw_side(draw, chars, alphabet, rels):
    toks, at = [], 0
    while at < len(chars):
        n = min(len(chars) - at, draw(st.sampled_from([1, 1, 1, 2, 2, 3, 5])))
        form = chars[at:at + n]
        at += n
        if draw(st.integers(0, 9)) == 0 and len(form) > 1:
            form = form[:1] + " " + form[1:]
        t = {"form": form, "sp": True, "mwt": False, "words": [{"t": form}]}
        if draw(st.integers(0, 2)) == 0:
            set_words(draw, t, alphabet)
        toks.append(t)
    return annotate(draw, split(draw, toks), rels, 1)


def split(draw, toks):
    if not toks:
        return []
    cuts = sorted(draw(st.sets(st.integers(1, len(toks)), max_size=4)) | {len(toks)})
    return [toks[a:b] for a, b in zip([0] + cuts, cuts)]


def edit(draw, side, alphabet):
    """joins or splits few neighbouring tokens"""
    for _ in range(draw(st.integers(1, 3))):
        cands = [s for s in side["sents"] if s["toks"]]
        if not cands:
            return
        s = cands[draw(st.integers(0, len(cands) - 1))]
        i = draw(st.integers(0, len(s["toks"]) - 1))
        kind = draw(st.integers(0, 3))
        t = s["toks"][i]
        if kind == 0 and i + 1 < len(s["toks"]):  # two tokens become one multiword token or one word
            u = s["toks"].pop(i + 1)
            joined = t["form"] + u["form"]
            s["toks"][i] = {"form": joined, "sp": True, "mwt": True, "words": [dict(w) for w in t["words"] + u["words"]]}
            if draw(st.booleans()):
                s["toks"][i]["mwt"], s["toks"][i]["words"] = False, [{"t": joined}]
        elif kind == 1 and len(t["form"].replace(" ", "")) > 1:
            f = t["form"].replace(" ", "")
            k = draw(st.integers(1, len(f) - 1))
            s["toks"][i:i + 1] = [{"form": x, "sp": True, "mwt": False, "words": [{"t": x}]} for x in (f[:k], f[k:])]
        elif kind == 2:
            set_words(draw, t, alphabet)
        else:
            w = t["words"][draw(st.integers(0, len(t["words"]) - 1))]
            if t["mwt"]:
                w["t"] = w["t"].swapcase()


def annotate(draw, sents, rels, keep):
    """fills in annotation of words that have none; with keep > 1 most words that have it keep it"""
    result = []
    for toks in sents:
        toks = deepcopy(toks)
        ws = [w for t in toks for w in t["words"]]
        cs = draw(gen._CODES(len(ws)))
        heads = gen.tree_from_codes(cs)
        consistent = keep > 1 and all("h" in w for w in ws) and sorted(w["h"] for w in ws)[0:1] == [0] and draw(st.integers(0, 2)) > 0
        if consistent:
            hs = [w["h"] for w in ws]
            consistent = hs.count(0) == 1 and all(h <= len(ws) for h in hs) and acyclic(hs)
        for w, h, c in zip(ws, heads, cs):
            if "l" not in w or c % keep == 1:
                w["l"] = ["a", "b", None][c % 3]
                w["u"] = ["N", "V", None][c // 3 % 3]
                w["x"] = ["n", "v"][c // 9 % 2]
                w["f"] = [{}, {"A": "1"}, {"A": "1", "B": "2"}][c // 18 % 3]
                w["d"] = rels[c // 54 % len(rels)]
            if not consistent:
                w["h"] = h
        result.append({"toks": toks, "tree": True})
    return {"sents": result}


def acyclic(hs):
    for i in range(1, len(hs) + 1):
        j, steps = i, 0
        while j:
            j = hs[j - 1]
            steps += 1
            if steps > len(hs):
                return False
    return True


def close(a, b):
    if a is None or b is None:
        return a is None and b is None
    return abs(a - b) < 1e-9


def run(case, ctx):
    gold_text, system_text = conllu.render(case["gold"], case["deco"]), conllu.render(case["system"], case["deco"])
    if case["bad"]:
        # a file over other characters
        rows = [k for k, l in enumerate(system_text.split("\n")) if l.count("\t") == 9 and "." not in l.split("\t")[0] and not l.split("\t")[0] == ""]
        extra = "1\tz\t_\t_\t_\t_\t0\t_\t_\t_\n\n"
        system_text = extra + system_text if len(rows) % 2 else system_text + extra
    kg, gold = udref.load(gold_text)
    ks, system = udref.load(system_text)
    if kg != "ok" or ks != "ok":
        raise HarnessError("generated text is not valid: %r %r" % (gold, system))
    weights = case["weights"]
    by_definition = udscore.scores(gold, system, weights)
    expected = ud_official.scores(gold, system, weights) if by_definition is not None else None
    ambiguous = not udscore.unambiguous(gold, system)
    ctx.label("multiword tokens and different surface tokens", ambiguous)
    if expected is not None and not ambiguous:
        for m, v in expected.items():
            if not all(close(x, y) or not x and not y for x, y in zip(v, by_definition[m])):
                raise HarnessError("reference and definition disagree: %s %r %r\n%s\n%s" % (m, v, by_definition[m], gold_text, system_text))
    spans = udscore.multiword_spans(gold, system)
    ctx.label("mode:" + case["mode"])
    ctx.label("multiword spans", bool(spans))
    ctx.label("weights", weights is not None)
    ctx.label("different characters", expected is None)
    n = min(len(gold["words"]), len(system["words"]))
    ctx.nontrivial(n >= 3 and gold_text != system_text)
    if expected is not None:
        ctx.label("partially aligned", 0 < expected["Words"][0] < 1)
        ctx.label("attachment partially correct", 0 < expected["UAS"][2] < 1)
        pairs = udscore.align(gold, system)
        ctx.label("attached to an unaligned word", any(system["words"][s]["parent"] is not None and
                                                        system["words"][s]["parent"] not in {b for _, b in pairs} for _, s in pairs))

    g, s = load_conllu(StringIO(gold_text)), load_conllu(StringIO(system_text))
    try:
        actual = evaluate(g, s, weights) if weights is not None else evaluate(g, s)
    except UDError:
        check(expected is None, "files over the same characters are rejected")
        actual = None
    else:
        check(expected is not None, "files over different characters are scored")
        compare(actual, expected)
        for m, v in actual.items():
            check(-1e-9 <= v.precision <= 1 + 1e-9 or weights and m == "WeightedLAS", "precision out of range", m, v.precision)
            check(-1e-9 <= v.recall <= 1 + 1e-9 and -1e-9 <= v.f1 <= 1 + 1e-9 or weights and m == "WeightedLAS", "score out of range", m, v.recall)
        back = evaluate(s, g)
        for m in ("Tokens", "Sentences", "Words")[:2 if ambiguous else 3]:
            check(close(back[m].precision, actual[m].recall) and close(back[m].recall, actual[m].precision) and close(back[m].f1, actual[m].f1),
                  "swapping the files does not swap precision and recall", m)
        compare(evaluate(g, s), {k: v for k, v in expected.items() if k != "WeightedLAS"})  # the second time
    if case["cli"]:
        run_cli(case, ctx, gold_text, system_text, weights, expected)


@st.composite
def large(draw):
    return {"pair": draw(pair()), "times": draw(st.sampled_from([20, 130, 45, 300])), "joined": draw(st.sampled_from(["no", "near", "far", "far"])), "seed": draw(st.integers(0, 10 ** 6))}


def run_large(case, ctx):
    """the same files many times one after another, also as one sentence"""
    small = case["pair"]
    n = max(1, sum(len(gen.words_of(s)) for s in small["gold"]["sents"]))
    times = min(case["times"], max(2, 3000 // n))
    ctx.label("joined: " + case["joined"])
    run(dict(small, gold=repeated(small["gold"], times, case), system=repeated(small["system"], times, case)), ctx)


def repeated(side, times, case):
    sents = [deepcopy(s) for _ in range(times) for s in side["sents"]]
    if case["joined"] == "no" or not sents:
        return {"sents": sents}
    toks, words, root = [], [], None
    for s in sents:
        toks += s["toks"]
        mine = gen.words_of(s)
        for w in mine:
            if w["h"]:
                w["h"] += len(words)
            elif root is None:
                root = len(words) + mine.index(w) + 1
            else:
                w["h"] = root
        words += mine
    if case["joined"] == "far":
        rnd = random.Random(case["seed"])
        for w, h in zip(words, gen.tree_from_codes([rnd.randrange(1009 * 1009) for _ in words])):
            w["h"] = h
    return {"sents": [{"toks": toks, "tree": True}]}


def compare(actual, expected):
    check_eq(set(actual), set(expected), "metrics")
    for m, (p, r, f, a) in expected.items():
        v = actual[m]
        if not (close(v.precision, p) and close(v.recall, r) and close(v.f1, f)):
            raise Violation("{}: got {}, expected {}".format(m, (v.precision, v.recall, v.f1, v.aligned_accuracy), expected[m]))
        if not close(v.aligned_accuracy, a) and not (not a and not v.aligned_accuracy):
            raise Violation("{} aligned accuracy: got {}, expected {}".format(m, v.aligned_accuracy, a))


def run_cli(case, ctx, gold_text, system_text, weights, expected):
    """the same through files and the command line"""
    d = ctx.scratch()
    names = {}
    for name, text in (("gold", gold_text), ("system", system_text)):
        names[name] = os.path.join(d, name)
        with open(names[name], "w", encoding="utf-8", newline="") as f:
            f.write(text)
    argv = ["eval", names["gold"], names["system"], "-v"]
    if weights is not None:
        names["weights"] = os.path.join(d, "weights")
        with open(names["weights"], "w", encoding="utf-8") as f:
            f.write("# comment\n\n")
            for n, (k, v) in enumerate(weights.items()):
                f.write(["{}\t{}\n", "{} {}\n", "{}   {} \n#{} 3\n", "{}\t {}\n\n \n"][(n + len(k)) % 4].format(k, v, k))
        argv += ["-w", names["weights"]]
        if any(not k or k.startswith("#") for k in weights):  # such a relation cannot be given in a file
            return
    ctx.label("command line")
    old = sys.argv
    out = io.StringIO()
    sys.argv = argv
    try:
        with contextlib.redirect_stdout(out):
            ud_eval.main()
    except UDError:
        check(expected is None, "command line rejects files over the same characters")
        return
    finally:
        sys.argv = old
    check(expected is not None, "command line scores files over different characters")
    rows = {}
    for line in out.getvalue().splitlines():
        cells = [c.strip() for c in line.split("|")]
        if cells[0] in expected:
            rows[cells[0]] = cells[1:]
    check_eq(set(rows), set(expected), "metrics of the command line")
    for m, (p, r, f, a) in expected.items():
        for shown, value in zip(rows[m], (p, r, f)):
            check(abs(float(shown) - 100 * value) < 0.0051, "value printed by the command line", m, rows[m], expected[m])
        if a:
            check(abs(float(rows[m][3]) - 100 * a) < 0.0051, "aligned accuracy printed by the command line", m, rows[m], expected[m])


CHECKS = [Check("scores", pair, run, quick=10000, thorough=400000, chunk=100, exhaustive=every_relation),
          Check("large", large, run_large, quick=160, thorough=2000, chunk=2)]
