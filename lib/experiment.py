"""Runs a whole experiment (python -m babylondigger.evaluation.evaluation ...) with a scripted trainer and observes it.

case = {"params": P, "seeds": [..] | int, "quality": [[[q, ...epochs] per seed] per params]   q = index into "levels"
        "levels": [[upos, lemma, xpos correct words of dev], ...], "test_levels": same for test,
        "n_dev", "n_test": numbers of words (powers of two), "fields", "metric", "printed", "delete", "test": bool, "results": bool,
        "prior": "absent" | "empty" | "content", "old": what there is if "content", "twins": equal hyperparameter sets}
"""
import contextlib
import io
import json
import os
import runpy
import sys
from fractions import Fraction

from hypothesis import strategies as st

from lib import fakes
from lib.contain import contained

fakes.install()
from babylondigger.datamodel import Document, Token, Pos
import babylondigger.evaluation.evaluation  # noqa

METRIC_COLUMN = {"UPOS": 0, "Lemmas": 1, "XPOS": 2}


@st.composite
def cases(draw, delete=None, crash=False):
    n_params = draw(st.sampled_from([1, 1, 2, 3, 4]))
    seeds = draw(st.sampled_from([7, [3], [3, 4], [5, 1], [1, 2, 3, 4], [10, 1], [1, 12, 10, 2], 0, [1, 0]]))  # powers of two: exact averages
    n_seeds = len(seeds) if isinstance(seeds, list) else 1
    n_dev, n_test = draw(st.sampled_from([4, 8])), draw(st.sampled_from([4, 8]))
    # long runs (names of two digits): mostly bad models and a few records among them
    long = draw(st.sampled_from(["no", "no", "no", "no", "no", "epochs", "params"]))
    if long == "params":
        n_params = draw(st.integers(10, 13))
    # a lot of data: qualities which differ very little
    base = 0
    if long == "no" and draw(st.integers(0, 30)) == 13:
        n_dev = draw(st.sampled_from([1024, 1024, 1024, 16384]))
        base = n_dev // 2
        n_params = min(n_params, 2)
        if n_dev > 1024:
            seeds, n_seeds = 7, 1
    test_value = st.integers(0, n_test)

    def series(n):
        records = sorted(draw(st.one_of(st.just([1, 10]), st.just([1, n - 1]), st.lists(st.integers(0, n - 1), min_size=1, max_size=3, unique=True))))
        return [[records.index(i) + 1] * 3 + [draw(test_value)] if i in records else [0, 0, 0, draw(test_value)] for i in range(n)]

    if long == "params":
        quality = [[[list(q)] * (1 + (k + i) % 2) for k in range(n_seeds)] for i, q in enumerate(series(n_params))]
    else:
        quality = []
        for _ in range(n_params):
            quality.append([[draw(st.tuples(*([st.integers(base, base + 3)] * 3 + [test_value])))
                             for _ in range(draw(st.sampled_from([2, 3] if base else [1, 2, 3, 5])))]
                            for _ in range(n_seeds)])
        if long == "epochs":
            quality[0][0] = series(draw(st.integers(11, 13)))
    fields = draw(st.lists(st.sampled_from(["UPOS", "Lemmas", "XPOS"]), min_size=1, max_size=3, unique=True))
    return {"quality": quality, "seeds": seeds, "n_dev": n_dev, "n_test": n_test, "fields": fields,
            "metric": draw(st.sampled_from(["f1", "f1", "precision", "recall", "aligned_accuracy"])),
            "printed": draw(st.one_of(st.just(["UPOS", "Lemmas", "XPOS"]), st.just(["Tokens", "UPOS", "AllTags"]), st.just(fields),
                                      st.lists(st.sampled_from(["UPOS", "Lemmas", "XPOS", "Words", "LAS"]), min_size=1, max_size=3, unique=True))),
            "delete": draw(st.sampled_from([True, True, False])) if delete is None else delete, "test": draw(st.sampled_from([True, True, True, False])),
            "results": draw(st.booleans()), "prior": draw(st.sampled_from(["absent", "absent", "empty", "content"])),
            "bare": n_params == 1 and draw(st.booleans()), "shuffle": draw(st.booleans()), "old": draw(st.sampled_from(["old/model.bin", "model.bin", ".hidden", "empty/", "params-0/old/model.bin"])),
            "crash": draw(st.one_of(st.none(), st.none(), st.none(), st.tuples(st.sampled_from(["epoch", "dev", "dev", "test"]), st.integers(0, 9)))) if crash else None,
            "twins": draw(st.integers(0, 7)) == 5, "method": draw(st.sampled_from(["neural", "neural", "neural_pretrained"]))}


def seeds_of(case):
    return case["seeds"] if isinstance(case["seeds"], list) else [case["seeds"]]


def value(case, field, q):
    """correct words of a field -> score on dev (dyadic, exact)"""
    return Fraction(q[METRIC_COLUMN[field]], case["n_dev"])


def total(case, q):
    return sum(value(case, f, q) for f in case["fields"])


def selection(case):
    """-> (index of best params, {params: {seed index: best epoch}})"""
    kept = {}
    for p, per_seed in enumerate(case["quality"]):
        kept[p] = {}
        for s, epochs in enumerate(per_seed):
            best = 0
            for e, q in enumerate(epochs):
                if total(case, q) > total(case, epochs[best]):
                    best = e
            kept[p][s] = best
    avg = {p: sum(total(case, case["quality"][p][s][e]) for s, e in kept[p].items()) / len(kept[p]) for p in kept}
    best = 0
    for p in avg:
        if avg[p] > avg[best]:
            best = p
    return best, kept


def kept_now(case, p, s, e):
    """models (params, seed index, epoch) that must exist before epoch e of seed s of params p is trained; all earlier ones are beaten"""
    result = set()
    sub = {"quality": case["quality"][:p], "fields": case["fields"], "n_dev": case["n_dev"]}
    if p > 0:
        bp, kept = selection(sub)
        result |= {(bp, k, v) for k, v in kept[bp].items()}
    for k in range(s + 1):
        epochs = case["quality"][p][k][:e] if k == s else case["quality"][p][k]
        if epochs:
            best = 0
            for i, q in enumerate(epochs):
                if total(case, q) > total(case, epochs[best]):
                    best = i
            result.add((p, k, best))
    return result


def conllu_text(prefix, n, sent=4):
    out = ""
    for i in range(n):
        out += "{}\t{}{}\tl\tN\tx\t_\t{}\tr\t_\t_\n".format(i % sent + 1, prefix, i, i % sent)
        if i % sent == sent - 1 or i == n - 1:
            out += "\n"
    return out


class Crash(Exception):
    """something fails in the middle of an experiment"""


class Record(object):
    def __init__(self):
        self.trained = []      # (params given, seed)
        self.tagged = []       # ("dev" | "test", (p, s, e))
        self.snapshots = []    # (moment, set of existing model keys)
        self.error = None
        self.stdout = ""
        self.problems = []
        self.train_docs = []
        self.created = {}      # key -> path
        self.attempts = []


class Tagger(object):
    def __init__(self, rec, key, q, path, n):
        self.rec, self.key, self.q, self.path, self.n = rec, key, q, path, n

    def __str__(self):
        return "tagger {}".format(self.key)

    def tag(self, documents):
        return self._tag(documents)

    def _tag(self, documents):
        first, index = True, 0
        if not os.path.isfile(os.path.join(self.path, "weights", "model.bin")):
            self.rec.problems.append("files of model {} do not exist when it is used".format(self.key))
        for d in documents:
            text = d.text
            kind = "dev" if text.startswith("d") else "test" if text.startswith("t") else "other"
            if first:
                self.rec.tagged.append((kind, self.key))
                if kind == "test":
                    self.rec.snapshots.append((("test", self.key), self.rec.existing()))
                first = False
            q = self.q[:3] if kind == "dev" else [self.q[3]] * 3
            self.rec.step(kind, self.key)
            tokens = []
            for t in d.tokens:
                tokens.append(Token.with_morphology(t, Pos("N" if index < q[0] else "W", "x" if index < q[2] else "w"), "l" if index < q[1] else "w"))
                index += 1
            yield Document.from_document(d, tokens)
        if first:
            self.rec.tagged.append(("nothing", self.key))
        elif not os.path.isfile(os.path.join(self.path, "weights", "model.bin")):
            self.rec.problems.append("files of model {} were removed while it was used".format(self.key))


def tree(root):
    """all files and directories below root with contents"""
    result = {}
    for r, ds, fs in os.walk(root):
        for d in ds:
            result[os.path.relpath(os.path.join(r, d), root) + "/"] = None
        for f in fs:
            p = os.path.join(r, f)
            with open(p, "rb") as file:
                result[os.path.relpath(p, root)] = file.read()
    return result


def write(path, text):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "w", encoding="utf-8") as f:
        f.write(text)


def run(case, scratch):
    """-> Record, layout"""
    rec = Record()
    home = os.path.join(scratch, "home")
    model_dir = os.path.join(home, "models", "exp")
    results = os.path.join(home, "results")
    write(os.path.join(home, "data", "train.conllu"), conllu_text("r", 24))
    write(os.path.join(home, "data", "dev.conllu"), conllu_text("d", case["n_dev"]))
    write(os.path.join(home, "data", "test.conllu"), conllu_text("t", case["n_test"]))
    # files which do not belong to the experiment, also with names like those of models
    for name in ("models/other/keep.bin", "models/exp2/params-0/3/epoch-0/weights/model.bin", "params-0/3/epoch-0/x", "epoch-0/x", "keep.txt",
                 "models/params-0/epoch-0/x", "3/epoch-0/x"):
        write(os.path.join(home, name), "precious")
    if case["prior"] != "absent":
        os.makedirs(model_dir)
        if case["prior"] == "content":
            old = os.path.join(model_dir, case["old"])
            if old.endswith("/"):
                os.makedirs(old)
            else:
                write(old, "old")
    settings = {"random_seed": case["seeds"], "model_dir": model_dir, "train_set": {"path": os.path.join(home, "data", "train.conllu")},
                "dev_set": {"path": os.path.join(home, "data", "dev.conllu")}, "cmp_metric": {"fields": case["fields"], "metric": case["metric"]},
                "metric_printer": {"fields": case["printed"]}}
    if case["shuffle"]:
        settings["train_set"]["shuffler"] = {"seed": 5, "max_batch_size": 4}
    if case["test"]:
        settings["test_set"] = {"path": os.path.join(home, "data", "test.conllu")}
    if case["results"]:
        settings["dev_set"]["results_path"] = results
        if case["test"]:
            settings["test_set"]["results_path"] = results
    hyper = rec.hyper = [{"id": p // 2 if case["twins"] else p, "nested": {"x": [p // 2 if case["twins"] else p]}, "nothing": None, "off": False, "empty": [{}, "", 0.0]} for p in range(len(case["quality"]))]
    write(os.path.join(home, "settings.json"), json.dumps(settings))
    write(os.path.join(home, "hyper.json"), json.dumps(hyper[0] if case["bare"] else hyper))

    seeds = seeds_of(case)
    rec.existing = lambda: {k for k, p in rec.created.items() if os.path.isfile(os.path.join(p, "weights", "model.bin"))}
    rec.returned = set()
    steps = {"epoch": 0, "dev": 0, "test": 0}
    rec.crashed = None

    def step(kind, key):
        if case["crash"] is not None and case["crash"][0] == kind:
            steps[kind] += 1
            if steps[kind] == case["crash"][1] + 1:
                rec.crashed = (kind, key)
                raise Crash()

    rec.step = step

    def train(documents, dev_tester=None, seed=None, model_dir=None, model_name_format=None, **params):
        p = len(rec.trained) // len(seeds)
        s = seeds.index(seed)
        rec.trained.append((params, seed))
        rec.train_docs.append([d.text for d in documents])
        for e, q in enumerate(case["quality"][p][s]):
            rec.snapshots.append((("epoch", p, s, e), rec.existing()))
            step("epoch", (p, s, e))
            path = os.path.join(model_dir, model_name_format.format(e))
            write(os.path.join(path, "weights", "model.bin"), "model")
            write(os.path.join(path, "extractors"), "model")
            rec.created[(p, s, e)] = path
            tagger = Tagger(rec, (p, s, e), q, path, case["n_dev"])
            yield dev_tester(tagger), tagger
        rec.snapshots.append((("end", p, s), rec.existing()))

    fakes.TRAINER["neural"] = fakes.TRAINER["neural_pretrained"] = train
    argv = ["evaluation.py", "--settings", os.path.join(home, "settings.json"), "--method", case["method"], "--hyperparams", os.path.join(home, "hyper.json")]
    if case["delete"]:
        argv.append("--delete_after")
    rec.before = tree(home)
    out = io.StringIO()
    old_argv = sys.argv
    sys.argv = argv
    module = sys.modules.pop("babylondigger.evaluation.evaluation")
    guard = contained(home)
    try:
        with contextlib.redirect_stdout(out), guard:
            runpy.run_module("babylondigger.evaluation.evaluation", run_name="__main__", alter_sys=False)
    except Exception as e:
        rec.error = e
    finally:
        sys.argv = old_argv
        sys.modules["babylondigger.evaluation.evaluation"] = module
    rec.attempts = guard.attempts
    rec.stdout = out.getvalue()
    rec.after = tree(home)
    rec.model_rel = os.path.relpath(model_dir, home)
    rec.results_rel = os.path.relpath(results, home)
    return rec


def tables(stdout, header):
    """tables printed after the given header line: list of {metric: [cells]}"""
    result, lines, i = [], stdout.splitlines(), 0
    while i < len(lines):
        if lines[i].strip() == header:
            table, i = {}, i + 1
            while i < len(lines) and ("|" in lines[i] or "-+-" in lines[i]):
                cells = [c.strip() for c in lines[i].split("|")]
                if len(cells) == 5 and cells[0] != "Metrics":
                    table[cells[0]] = cells[1:]
                i += 1
            result.append(table)
        else:
            i += 1
    return result
