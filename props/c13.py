import os

from lib import experiment
from lib.core import Check, Violation, check, check_eq

PROPERTY = "C13"
RULE = ("cases are whole experiments (quality of every model, prior content of the model directory, with and without clean-up, and a failure somewhere in the middle), observed before every epoch, "
        "before every test and at the end; non-trivial: at least three models with clean-up, or a refused start")
ASSUMPTIONS = ["models are saved below the directory given to the trainer under the given name"]


def run(case, ctx):
    rec = experiment.run(case, ctx.scratch())
    check_eq(rec.attempts, [], "removal outside of the experiment")
    ctx.label("clean-up" if case["delete"] else "no clean-up")
    ctx.label("prior:" + case["prior"])
    ctx.label("names of two digits", len(case["quality"]) > 10 or any(len(ep) > 10 for per in case["quality"] for ep in per))
    m = rec.model_rel + os.sep
    n_models = sum(len(ep) for per in case["quality"] for ep in per)
    if case["delete"] and case["prior"] == "content":
        ctx.nontrivial()
        ctx.label("refused")
        check(isinstance(rec.error, ValueError), "start with a non-empty model directory is not refused", repr(rec.error))
        check_eq(rec.trained, [], "training although the start is refused")
        check_eq(rec.after, rec.before, "files after the refused start")
        return
    if rec.crashed is not None:
        check(isinstance(rec.error, experiment.Crash), "failure in the middle of the experiment is not passed on", repr(rec.error))
        ctx.label("failure: " + rec.crashed[0])
    elif rec.error is not None:
        raise rec.error
    check_eq(rec.problems, [], "use of models")
    outside = lambda t: {k: v for k, v in t.items() if not k.startswith(m) and not k.startswith(rec.results_rel) and k != m}
    old = outside(rec.before)
    new = outside(rec.after)
    check_eq({k: new.get(k, "missing") for k in old}, old, "files outside of the model directory")
    check_eq({k for k in new if k not in old and k != "results/"}, set(), "new files outside of the model and results directories")
    if not case["delete"]:
        check_eq(rec.existing(), set(rec.created), "models at the end of an experiment without clean-up")
        for k, v in rec.before.items():
            check_eq(rec.after.get(k, "missing"), v, "file which existed before")
        return
    ctx.nontrivial(len(rec.created) >= 3)
    best, kept = experiment.selection(case)
    for moment, existing in rec.snapshots:
        if moment[0] == "epoch":
            expected = experiment.kept_now(case, *moment[1:])
        elif moment[0] == "end":
            p, s = moment[1:]
            expected = experiment.kept_now(case, p, s, len(case["quality"][p][s]))
        else:
            expected = {(best, s, e) for s, e in kept[best].items()}
        missing = expected - existing
        check(not missing, "model which is still needed was removed", moment, missing)
        check(not existing - expected, "beaten model was not removed", moment, existing - expected)
    if rec.crashed is not None:
        # nothing more is removed
        kind, key = rec.crashed
        expected = {(best, s, e) for s, e in kept[best].items()} if kind == "test" else experiment.kept_now(case, *key) | ({key} if kind == "dev" else set())
        check_eq(rec.existing(), expected, "models after a failure")
        return
    check_eq([k for k in rec.after if k.startswith(m)], [], "content of the model directory after the experiment")
    check(rec.model_rel + "/" not in rec.after, "model directory still exists")
    if case["results"]:
        saved = [k for k in rec.after if k.startswith(rec.results_rel) and rec.after[k] is not None]
        check_eq(len(saved), n_models + (len(kept[best]) if case["test"] else 0), "number of saved results")


CHECKS = [Check("files", lambda: experiment.cases(crash=True), run, quick=2500, thorough=60000, chunk=50)]
