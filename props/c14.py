import contextlib
import copy
import io
import itertools
import json
import os
import runpy
import sys

from hypothesis import strategies as st

from lib import experiment, fakes
from lib.contain import contained
from lib.core import Check, check, check_eq
from babylondigger.datamodel import Document, Token, Pos
import babylondigger.evaluation.grid_eval  # noqa

PROPERTY = "C14"
RULE = ("cases are nested defaults (depth up to 4) and grids whose alternatives each name one parameter, run through the grid search program with a recording "
        "trainer which also modifies the parameters it is given; non-trivial: at least two entries with at least two alternatives each, or a rejected grid")

KEYS = ["a", "b", "c", "lr", "size", "optimizer", "tasks", "A"]
LEAVES = st.one_of(st.integers(-2, 3), st.sampled_from([None, True, False, 0.5, 1.0, "", "x", "ÿ", [], [1, 2], [{"k": [1]}]]))

DEFAULTS = st.one_of(LEAVES, LEAVES, LEAVES, LEAVES, st.builds(dict))


@st.composite
def tree(draw, depth):
    keys = draw(st.lists(st.sampled_from(KEYS), min_size=2 if depth == 3 else 1, max_size=5 if depth == 3 else 3, unique=True))
    return {k: draw(tree(depth - 1)) if depth > 0 and draw(st.booleans()) else draw(DEFAULTS) for k in keys}


def paths(t, prefix=()):
    for k, v in t.items():
        yield prefix + (k,)
        if isinstance(v, dict):
            for p in paths(v, prefix + (k,)):
                yield p


def nest(path, value):
    for k in reversed(path):
        value = {k: value}
    return value


@st.composite
def cases(draw):
    defaults = draw(tree(3))
    all_paths = list(paths(defaults))
    order = draw(st.permutations(all_paths))
    entries, used = [], []
    for p in order[:draw(st.sampled_from([4, 3, 2, 1, 0, 6]))]:
        if any(p[:len(q)] == q or q[:len(p)] == p for q in used):
            continue
        used.append(p)
        entries.append([[list(p), v] for v in draw(st.lists(LEAVES, min_size=1, max_size=3))])
    fault = draw(st.sampled_from([None, None, None, "missing", "missing", "mixed", "twice", "mixed and twice", "below"]))
    if fault == "missing":
        # a sibling of an existing parameter, at any depth
        base = draw(st.sampled_from([()] + [p for p in all_paths if isinstance(lookup(defaults, p), dict) and not any(p[:len(q)] == q for q in used)]))
        key = draw(st.sampled_from(KEYS + ["new"]))
        if key in lookup(defaults, base):
            key = "new"
        entries.insert(draw(st.integers(0, len(entries))), [[list(base + (key,)), v] for v in draw(st.lists(LEAVES, min_size=1, max_size=2))])
    elif fault == "mixed" and len(all_paths) > 1:
        free = [p for p in all_paths if not any(p[:len(q)] == q or q[:len(p)] == p for q in used)]
        if len(free) >= 2:
            a, b = draw(st.permutations(free))[:2]
            n = draw(st.integers(0, 2))
            alts = [[list(a), draw(LEAVES)] for _ in range(n + 1)]
            alts.insert(draw(st.integers(0, len(alts))), [list(b), draw(LEAVES)])
            entries.insert(draw(st.integers(0, len(entries))), alts)
        else:
            fault = None
    elif fault == "mixed and twice" and len(all_paths) > 1:
        a, b = draw(st.permutations(all_paths))[:2]
        for alts in ([a, b], [draw(st.sampled_from([a, b]))]):
            entries.insert(draw(st.integers(0, len(entries))), [[list(p), draw(LEAVES)] for p in alts])
    elif fault == "below":
        # a parameter below one that is no group: may be rejected, or replace it as a whole
        free = [p for p in all_paths if not isinstance(lookup(defaults, p), dict) and not any(p[:len(q)] == q for q in used)]
        if free:
            p = draw(st.sampled_from(free)) + (draw(st.sampled_from(["k", "a", "x"])),)
            entries.insert(draw(st.integers(0, len(entries))), [[list(p), v] for v in draw(st.lists(LEAVES, min_size=1, max_size=2))])
        else:
            fault = None
    elif fault == "twice" and entries:
        e = draw(st.sampled_from(entries))
        entries.insert(draw(st.integers(0, len(entries))), [[e[0][0], v] for v in draw(st.lists(LEAVES, min_size=1, max_size=2))])
    else:
        fault = None
    names = draw(st.lists(st.sampled_from(["lr", "first", "a", "b", "z", "grid", "x1", "A"]), min_size=len(entries), max_size=len(entries), unique=True))
    return {"defaults": defaults, "grid": [[n, e] for n, e in zip(names, entries)], "fault": fault, "method": draw(st.sampled_from(["neural", "neural_pretrained"])),
            "seeds": draw(st.sampled_from([4, [4], [4, 2]])), "delete": draw(st.booleans()), "mutate": draw(st.booleans()) and fault != "below",
            "scores": draw(st.lists(st.integers(0, 4), min_size=1, max_size=6))}


def lookup(t, path):
    for k in path:
        t = t[k]
    return t


def replaced(defaults, combination):
    result = copy.deepcopy(defaults)
    for path, value in combination:
        if not isinstance(lookup(result, path[:-1]), dict):
            path, value = path[:-1], {path[-1]: value}
        lookup(result, path[:-1])[path[-1]] = copy.deepcopy(value)
    return result


def canon(x):
    return json.dumps(x, sort_keys=True)


def wreck(value, protected):
    """modifies everything that comes from the defaults"""
    if isinstance(value, dict):
        for k in list(value):
            if (k,) not in protected:
                wreck(value[k], [p[1:] for p in protected if p[0] == k])
                if not any(p[0] == k for p in protected):
                    value[k] = "wrecked"
        value["wrecked"] = 1
    elif isinstance(value, list):
        value.append("wrecked")


def run(case, ctx):
    home = os.path.join(ctx.scratch(), "home")
    model_dir = os.path.join(home, "models", "exp")
    for kind in ("train", "dev"):
        experiment.write(os.path.join(home, kind + ".conllu"), experiment.conllu_text(kind[0], 4))
    settings = {"random_seed": case["seeds"], "model_dir": model_dir, "train_set": {"path": os.path.join(home, "train.conllu")},
                "dev_set": {"path": os.path.join(home, "dev.conllu")}, "cmp_metric": {"fields": ["UPOS"], "metric": "f1"}, "metric_printer": {"fields": ["UPOS"]}}
    experiment.write(os.path.join(home, "settings.json"), json.dumps(settings))
    experiment.write(os.path.join(home, "hyper.json"), json.dumps(case["defaults"]))
    grid = {name: [nest(p, v) for p, v in alts] for name, alts in case["grid"]}
    experiment.write(os.path.join(home, "grid.json"), json.dumps(grid))
    before = experiment.tree(home)
    calls = []
    grid_paths = [tuple(p) for _, alts in case["grid"] for p, _ in alts]

    class Tagger(object):
        def __init__(self, q):
            self.q = q

        def tag(self, documents):
            i = 0
            for d in documents:
                tokens = []
                for t in d.tokens:
                    tokens.append(Token.with_morphology(t, Pos("N" if i < self.q else "W"), None))
                    i += 1
                yield Document.from_document(d, tokens)

    def trainer(method):
        def train(documents, dev_tester=None, seed=None, model_dir=None, model_name_format=None, **params):
            calls.append((method, seed, canon(params)))
            path = os.path.join(model_dir, model_name_format.format(0))
            experiment.write(os.path.join(path, "model.bin"), "model")
            tagger = Tagger(case["scores"][len(calls) % len(case["scores"])])
            yield dev_tester(tagger), tagger
            # only one seed uses these objects: whatever it does to them must not matter for other combinations
            if case["mutate"] and not (isinstance(case["seeds"], list) and len(case["seeds"]) > 1):
                wreck(params, grid_paths)
        return train

    for method in ("neural", "neural_pretrained"):
        fakes.TRAINER[method] = trainer(method)
    old_argv, error = sys.argv, None
    sys.argv = ["grid_eval.py", "--settings", os.path.join(home, "settings.json"), "--method", case["method"], "--hyperparams", os.path.join(home, "hyper.json"),
                "--grid", os.path.join(home, "grid.json")] + (["--delete_after"] if case["delete"] else [])
    module = sys.modules.pop("babylondigger.evaluation.grid_eval")
    guard = contained(home)
    try:
        with contextlib.redirect_stdout(io.StringIO()), guard:
            runpy.run_module("babylondigger.evaluation.grid_eval", run_name="__main__", alter_sys=False)
    except Exception as e:
        error = e
    finally:
        sys.argv = old_argv
        sys.modules["babylondigger.evaluation.grid_eval"] = module
    check_eq(guard.attempts, [], "removal outside of the experiment")
    after = experiment.tree(home)
    ctx.label("fault:{}".format(case["fault"]))
    if case["fault"] and (case["fault"] != "below" or error is not None):
        ctx.nontrivial()
        check(isinstance(error, ValueError), "invalid grid is not rejected with ValueError", repr(error), grid)
        check_eq(calls, [], "training although the grid is rejected")
        check_eq(after, before, "files after the rejection")
        return
    if error is not None:
        raise error
    combos = [replaced(case["defaults"], combo) for combo in itertools.product(*(alts for _, alts in case["grid"]))]
    seeds = case["seeds"] if isinstance(case["seeds"], list) else [case["seeds"]]
    ctx.nontrivial(sum(len(a) >= 2 for _, a in case["grid"]) >= 2)
    ctx.label("combinations", len(combos) > 1)
    ctx.label("nested", any(len(p) > 1 for p in grid_paths))
    ctx.label("mutated", case["mutate"])
    check_eq(calls, [(case["method"], seed, canon(c)) for c in combos for seed in seeds], "training runs")
    check_eq({k: v for k, v in after.items() if k != "models/"}, before, "files after the experiment")


CHECKS = [Check("grid", cases, run, quick=6000, thorough=200000, chunk=50)]
