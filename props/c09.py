import os
import random
from io import StringIO

from hypothesis import strategies as st

from lib import gen, conllu, udref, udcmp
from lib.core import Check, Violation, check, check_eq

from babylondigger.evaluation.conll17_ud_eval import load_conllu, load_conllu_file, UDError

PROPERTY = "C09"
RULE = ("valid: CoNLL-U texts rendered from generated sentences; mutated: the same with one to three changes of lines, columns or characters; wild: texts "
        "over the characters the format is made of; long: sentences of thousands of words. non-trivial: loaded with at least two words, or rejected "
        "although it has a line of ten columns")
ASSUMPTIONS = ["texts whose numbers are not plain decimals, or which are wrong only inside of a multiword token, may be loaded or rejected with UDError"]


def outcome(text, ctx, on_file):
    try:
        if on_file:
            path = os.path.join(ctx.scratch(), "x.conllu")
            with open(path, "w", encoding="utf-8", newline="") as f:
                f.write(text)
            return load_conllu_file(path), None
        return load_conllu(StringIO(text)), None
    except UDError as e:
        return None, e


def run_text(text, ctx, on_file=False):
    if on_file and "\r" in text.replace("\r\n", ""):
        on_file = False  # a lone CR is a line end in files
    kind, ref = udref.load(text)
    ctx.label(kind)
    if kind == "error":
        ctx.label("reason: " + ref)
    ctx.nontrivial((kind == "ok" and len(ref["words"]) > 1) or (kind == "error" and any(l.count("\t") == 9 for l in text.split("\n"))))
    ud, error = outcome(text, ctx, on_file)
    if kind == "ok":
        check(error is None, "valid text is rejected: %s" % error, repr(text))
        udcmp.compare_loaded(ud, ref)
    elif kind == "error":
        check(error is not None, "broken text is loaded (%s)" % ref, repr(text))


@st.composite
def valid(draw, big=True):
    return {"spec": draw(gen.documents(n_sents=(1, 3, 8), max_tokens=(4, 20), tree=draw(st.sampled_from([True, True, True, True, None])), big=big)),
            "deco": draw(conllu.decorations()), "file": draw(st.booleans())}


def run_valid(case, ctx):
    ctx.labels |= gen.doc_features(case["spec"])
    run_text(conllu.render(case["spec"], case["deco"]), ctx, case["file"])


MUTATION = st.tuples(st.sampled_from(["head", "head", "head", "head", "id", "form", "column", "delline", "dupline", "insline", "delchar", "inschar", "swap", "cut", "delcol",
                                      "blank", "range"]),
                     st.integers(0, 10000), st.integers(0, 10000))


@st.composite
def mutated(draw):
    return {"spec": draw(gen.documents(n_sents=(1, 2, 4), max_tokens=(4, 8), tree=True, pool_size=3)), "deco": draw(conllu.decorations()),
            "muts": draw(st.lists(MUTATION, min_size=1, max_size=3)), "char": draw(st.sampled_from(["", "\t", "\n", " ", "-", ".", "0", "1", "#", "_", "a", "\r", "\u0661"]))}


WORDS = ["0", "1", "2", "3", "99", "-1", "_", "", "a", "1.5", "+1", " 1", "1-2", "2-1", "1-", "-", "\u0661", "1_0", "01", "1e3", "1-2-3", "9" * 30]


def mutate(text, muts, char):
    for kind, a, b in muts:
        lines = text.split("\n")
        i = a % len(lines)
        rows = [k for k, l in enumerate(lines) if l.count("\t") == 9]
        r = rows[a % len(rows)] if rows else None
        if kind in ("head", "id", "form", "column", "delcol", "range") and r is not None:
            cols = lines[r].split("\t")
            if kind == "head":
                cols[6] = str(b % (len(lines) + 2)) if b % 3 else str(b % 4)
            elif kind == "id":
                cols[0] = WORDS[b % len(WORDS)]
            elif kind == "range":
                cols[0] = "{}-{}".format(a % 4, b % 7)
            elif kind == "form":
                cols[1] = ["", " ", "  ", "a b"][b % 4]
            elif kind == "column":
                cols[b % 10] = WORDS[(a + b) % len(WORDS)]
            else:
                del cols[b % 10]
            lines[r] = "\t".join(cols)
        elif kind == "delline":
            del lines[i]
        elif kind == "dupline":
            lines.insert(i, lines[i])
        elif kind == "insline":
            lines.insert(i, ["# c", "", "x", "\t" * 9, "1" + "\t_" * 9, "\t".join(["9", "a"] + ["0"] * 8)][b % 6])
        elif kind == "blank":
            lines.insert(i, "")
        elif kind == "swap":
            j = b % len(lines)
            lines[i], lines[j] = lines[j], lines[i]
        elif kind == "cut":
            lines = lines[:i + 1]
        elif kind in ("delchar", "inschar"):
            t = "\n".join(lines)
            p = b % (len(t) + 1)
            lines = [t[:p] + (t[p + 1:] if kind == "delchar" else char + t[p:])]
        text = "\n".join(lines)
    return text


def run_mutated(case, ctx):
    for m in case["muts"]:
        ctx.label("mutation:" + m[0])
    run_text(mutate(conllu.render(case["spec"], case["deco"]), case["muts"], case["char"]), ctx)


def wild():
    row = st.lists(st.sampled_from(["1", "2", "3", "0", "1-2", "2-3", "1.1", "a", "_", "", "a b", "x:y", "1-1", "-1"]), min_size=8, max_size=11).map("\t".join)
    good = st.tuples(st.integers(1, 4), st.integers(0, 4)).map(lambda t: "%d\ta\t_\t_\t_\t_\t%d\t_\t_\t_" % t)
    rng = st.tuples(st.integers(1, 3), st.integers(0, 4)).map(lambda t: "%d-%d\tab\t_\t_\t_\t_\t_\t_\t_\t_" % (t[0], t[0] + t[1] - 1))
    line = st.one_of(good, good, good, st.just(""), st.just(""), rng, row, st.just("# c"), st.text("\t01-._#a\r ", max_size=30))
    return st.one_of(st.lists(line, max_size=12).map("\n".join), st.lists(line, max_size=12).map(lambda l: "\n".join(l) + "\n\n"),
                     st.text("\t\n01-._#a", max_size=60), st.text(max_size=30))


def run_wild(case, ctx):
    run_text(case, ctx)


def long_cases():
    for n in (900, 1100, 5000):
        for shape in ("forward", "backward", "cycle", "flat", "random", "two chains", "root and cycle"):
            for mwt in (0, 1):
                yield {"n": n, "shape": shape, "mwt": mwt}


def run_long(case, ctx):
    n = case["n"]
    rnd = random.Random(n)
    order = list(range(1, n + 1))
    rnd.shuffle(order)
    heads = {"forward": [i + 1 for i in range(1, n)] + [0], "backward": list(range(n)), "cycle": [i + 1 for i in range(1, n)] + [1],
             "flat": [0] + [1] * (n - 1), "two chains": [0] + [max(1, i - 2) for i in range(2, n + 1)],
             "root and cycle": [0] + [i + 1 for i in range(2, n)] + [2] if n > 1 else [0],
             "random": None}[case["shape"]]
    if heads is None:
        heads = [0] * n
        for a, b in zip(order[1:], order):
            heads[a - 1] = b
    lines = []
    for i in range(1, n + 1):
        if case["mwt"] and i % 500 == 1:
            lines.append("{}-{}\tab\t_\t_\t_\t_\t_\t_\t_\t_".format(i, min(n, i + 1)))
        lines.append("{}\ta\t_\t_\t_\t_\t{}\tx:y\t_\t_".format(i, heads[i - 1]))
    run_text("\n".join(lines) + "\n\n", ctx)
    ctx.label("long")


CHECKS = [
    Check("valid", valid, run_valid, quick=3000, thorough=80000, chunk=100),
    Check("large", lambda: valid("always"), run_valid, quick=120, thorough=2000, chunk=4),
    Check("mutated", mutated, run_mutated, quick=8000, thorough=300000, chunk=100),
    Check("wild", wild, run_wild, quick=8000, thorough=300000, chunk=200),
    Check("long", lambda: st.builds(lambda n, s, m: {"n": n, "shape": s, "mwt": m}, st.integers(1, 1500),
                                    st.sampled_from(["forward", "backward", "cycle", "flat", "random", "two chains", "root and cycle"]), st.integers(0, 1)),
          run_long, quick=60, thorough=2000, chunk=8, exhaustive=long_cases),
]
