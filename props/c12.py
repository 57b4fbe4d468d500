import ast
from fractions import Fraction

from lib import experiment
from lib.core import Check, Violation, check, check_eq

PROPERTY = "C12"
RULE = ("cases are whole experiments: dev and test quality of every model of every epoch, seed and hyperparameter set (few values, so that ties are frequent), "
        "compared fields and metric; non-trivial: at least three models, two of them of different quality")
ASSUMPTIONS = ["the trainer yields at least one model per run", "numbers of words are powers of two, so that scores are exact"]


def expected_score(metric, q, n, test):
    """-> (p = r = f1, aligned accuracy) of one model"""
    u, l, x = (q[3], q[3], q[3]) if test else q[:3]
    if metric in ("Tokens", "Sentences", "Words"):
        return Fraction(1), None
    correct = {"UPOS": u, "Lemmas": l, "XPOS": x, "AllTags": min(u, x), "LAS": 0, "Feats": n}.get(metric)
    return Fraction(correct, n), Fraction(correct, n)


def check_table(table, case, models, test, what):
    n = case["n_test"] if test else case["n_dev"]
    check_eq(set(table), set(case["printed"]), what + ": metrics")
    for m, cells in table.items():
        scores = [expected_score(m, q, n, test) for q in models]
        value = sum(s[0] for s in scores) / len(scores) * 100
        for c in cells[:3]:
            check(abs(Fraction(c) - value) <= Fraction(51, 10000), what + ": reported score", m, cells, float(value))
        if scores[0][1] is None:
            check_eq(cells[3], "", what + ": aligned accuracy of " + m)
        else:
            value = sum(s[1] for s in scores) / len(scores) * 100
            check(abs(Fraction(cells[3]) - value) <= Fraction(51, 10000), what + ": reported aligned accuracy", m, cells, float(value))


def run(case, ctx):
    if case["delete"] and case["prior"] == "content":
        case["prior"] = "absent"
    rec = experiment.run(case, ctx.scratch())
    if rec.error is not None:
        raise rec.error
    check_eq(rec.attempts, [], "removal outside of the experiment")
    seeds = experiment.seeds_of(case)
    best, kept = experiment.selection(case)
    models = [(p, s, e) for p, per in enumerate(case["quality"]) for s, ep in enumerate(per) for e in range(len(ep))]
    totals = {experiment.total(case, case["quality"][p][s][e]) for p, s, e in models}
    ctx.label("several seeds", len(seeds) > 1)
    ctx.label("several hyperparameter sets", len(case["quality"]) > 1)
    ctx.label("tie for the best epoch", any([experiment.total(case, q) for q in ep].count(max(experiment.total(case, q) for q in ep)) > 1
                                           for per in case["quality"] for ep in per))
    ctx.label("best is not the first set", best > 0)
    ctx.label("test", case["test"])
    ctx.label("scores that differ by less than 0.001", case["n_dev"] >= 1024 and len(totals) > 1)
    ctx.nontrivial(len(models) >= 3 and len(totals) > 1)

    # every hyperparameter set is trained with every seed, on the training data
    check_eq(rec.trained, [(p, s) for p in rec.hyper for s in seeds], "training runs")
    train_texts = sorted("r%d r%d r%d r%d" % (i, i + 1, i + 2, i + 3) for i in range(0, 24, 4))
    for texts in rec.train_docs:
        check_eq(sorted(t.strip() for t in texts), train_texts, "training data")
    # dev data: each model once; test data: only the selected ones, once
    check_eq([k for kind, k in rec.tagged if kind == "dev"], models, "models tested on development data")
    used = [k for kind, k in rec.tagged if kind == "test"]
    check_eq(sorted(used), sorted((best, s, e) for s, e in kept[best].items()) if case["test"] else [], "models tested on test data")
    check_eq([k for kind, k in rec.tagged if kind not in ("dev", "test")], [], "models tested on other data")
    # saved results: the output of every tested model in a file of its own
    if case["results"]:
        saved = []
        for name, content in rec.after.items():
            if name.startswith(rec.results_rel) and content is not None:
                rows = [l.split("\t") for l in content.decode("utf-8").splitlines() if l and not l.startswith("#")]
                saved.append((rows[0][1][0] if rows else "", len(rows), sum(r[3] == "N" for r in rows), sum(r[2] == "l" for r in rows), sum(r[4] == "x" for r in rows)))
        want = [("d", case["n_dev"]) + tuple(case["quality"][p][s][e][:3]) for p, s, e in models]
        if case["test"]:
            want += [("t", case["n_test"]) + (case["quality"][best][s][e][3],) * 3 for s, e in kept[best].items()]
        check_eq(sorted(saved), sorted(want), "saved results (data, words, right tags, lemmas and language tags)")
    # reported scores
    chosen = [case["quality"][best][s][e] for s, e in sorted(kept[best].items())]
    dev_tables = experiment.tables(rec.stdout, "Dev scores:")
    check(len(dev_tables) > 0, "no development scores are reported")
    check_table(dev_tables[-1], case, chosen, False, "final development scores")
    reported = [l for l in rec.stdout.splitlines() if l.startswith("Hyperparams:")]
    check(len(reported) > 0, "no hyperparameters are reported")
    check_eq(ast.literal_eval(reported[-1][len("Hyperparams:"):].strip()), rec.hyper[best], "finally reported hyperparameters")
    reported = [l[len("Best model:"):].strip() for l in rec.stdout.splitlines() if l.startswith("Best model:")]
    check_eq(reported, ["tagger {}".format((p, s, e)) for p in sorted(kept) for s, e in sorted(kept[p].items())], "best models reported per run")
    if case["test"]:
        test_tables = experiment.tables(rec.stdout, "Test scores:")
        check_eq(len(test_tables), 1, "number of reported test scores")
        check_table(test_tables[0], case, chosen, True, "test scores")


CHECKS = [Check("select", experiment.cases, run, quick=2500, thorough=60000, chunk=50)]
