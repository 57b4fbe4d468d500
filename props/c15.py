import json
import os
import random
import subprocess
import sys
import time

from hypothesis import strategies as st

from lib.core import Check, check, check_eq
from babylondigger.datamodel import Document, Token, Sentence
from babylondigger.evaluation.dataset import ShuffledDataset, CoNLLUDataSet
from babylondigger.evaluation.conllu_io import CoNLLUReader

PROPERTY = "C15"
RULE = ("cases are data set sizes, batch sizes, seeds and interleavings of several (finished or abandoned) iterations; non-trivial: at least two batches of at "
        "least two documents, or interleaved iterations")
ASSUMPTIONS = ["the batch size is at least 1"]


class Source(object):
    """re-iterable data set which counts what is taken from it"""

    def __init__(self, n):
        self.items = [object() for _ in range(n)]
        self.index = {id(x): i for i, x in enumerate(self.items)}
        self.copy = list(self.items)

    def __iter__(self):
        return iter(list(self.items))


class elsewhere(object):
    """another time, other states of the global random generators"""

    def __init__(self, salt):
        self.salt = salt

    def __enter__(self):
        self.time, self.state = time.time, random.getstate()
        now, shift = time.time, 3600.0 * self.salt + 17
        time.time = lambda: now() + shift
        random.seed(self.salt)

    def __exit__(self, *args):
        time.time = self.time
        random.setstate(self.state)


@st.composite
def histories(draw):
    batch = draw(st.one_of(st.integers(1, 8), st.sampled_from([1, 2, 3, 5, 16, 50, 51, 1000])))
    n = draw(st.one_of(st.integers(0, 12), st.sampled_from([batch // 2, batch // 2 + 1, batch - 1, batch, batch + 1, 2 * batch, 3 * batch, 120])))
    n = min(n, 400)
    ops = draw(st.lists(st.tuples(st.sampled_from(["start", "take", "take", "finish", "drop", "start"]), st.integers(0, 3), st.integers(1, 12)), min_size=1, max_size=14))
    return {"n": n, "batch": batch, "seed": draw(st.one_of(st.integers(0, 10), st.integers(-3, 0), st.integers(-2 ** 40, 2 ** 70))), "ops": ops, "default": draw(st.integers(0, 5)) == 3}


def build(case, source):
    if case["default"]:
        return ShuffledDataset(source, case["seed"])
    return ShuffledDataset(source, case["seed"], case["batch"])


def displacement_ok(order, batch):
    """documents of one batch stay together: the order consists of permutations of consecutive blocks of at most `batch` documents"""
    start = 0
    while start < len(order):
        top, end = -1, start
        while True:
            top = max(top, order[end])
            end += 1
            if top < end:
                break
            if end == len(order):
                return False
        if end - start > batch:
            return False
        start = end
    return True


def run_history(case, ctx):
    batch = 50 if case["default"] else case["batch"]
    n = case["n"]

    def play():
        source = Source(n)
        data = build(case, source)
        live, done = [], []  # iterators and what they have yielded
        for op, which, count in case["ops"]:
            if op == "start" or not live:
                live.append((iter(data), []))
                continue
            it, got = live[which % len(live)]
            if op == "take":
                for _ in range(count):
                    try:
                        got.append(next(it))
                    except StopIteration:
                        break
            elif op == "finish":
                got.extend(it)
                live.pop(which % len(live))
                done.append(got)
            elif op == "drop":
                live.pop(which % len(live))
        for it, got in live:
            got.extend(it)
            done.append(got)
        last = list(data)  # whatever happened before, the data set is still complete
        done.append(last)
        check(source.items == source.copy and all(a is b for a, b in zip(source.items, source.copy)), "the underlying data set was modified")
        orders = []
        for got in done:
            check(all(id(x) in source.index for x in got), "document which is not in the data set")
            orders.append([source.index[id(x)] for x in got])
        return orders

    orders = play()
    for order in orders:
        check_eq(sorted(order), list(range(n)), "documents of one iteration (indices)")
        for position, doc in enumerate(order):
            check(abs(position - doc) < batch, "document moved by the batch size or more", position, doc, batch)
        check(displacement_ok(order, batch), "documents of more than one batch are mixed", order, batch)
    with elsewhere(case["ops"][0][2]):
        check_eq(play(), orders, "orders produced again from the same seed and history")
    # the order of an iteration depends only on the seed and on how many iterations have been begun before it
    source, other = Source(n), Source(n)
    plain, disturbed = build(case, source), build(case, other)
    parts = [count for _, _, count in case["ops"]][:4]
    unfinished = []
    for k, count in enumerate(parts):
        order = [source.index[id(x)] for x in plain]
        it = iter(disturbed)
        got = [x for _, x in zip(range(count), it)]
        unfinished.append((it, got, order))
        if k % 2:
            it, got, order = unfinished[k - 1]
            got.extend(x for _, x in zip(range(count), it))
    for it, got, order in reversed(unfinished):
        got.extend(it)
        check_eq([other.index[id(x)] for x in got], order, "order of an iteration while others are unfinished")
    check_eq([other.index[id(x)] for x in disturbed], [source.index[id(x)] for x in plain], "order of the next iteration")
    starts = sum(op == "start" for op, _, _ in case["ops"])
    ctx.label("several iterations", len(orders) > 2)
    ctx.label("abandoned", any(op == "drop" for op, _, _ in case["ops"]))
    ctx.label("default batch size", case["default"])
    ctx.nontrivial((n > batch and batch > 1) or (starts > 1 and n > 1))


@st.composite
def fresh(draw):
    return {"batch": draw(st.one_of(st.integers(4, 60), st.sampled_from([100, 200, 1000]))), "n": draw(st.integers(40, 90)), "seeds": draw(st.lists(st.integers(0, 2 ** 32), min_size=4, max_size=4, unique=True))}


def run_fresh(case, ctx):
    """successive iterations and different seeds are shuffled independently: equal orders have a negligible probability (at least 40 documents in batches of at least 3)"""
    orders = []
    for seed in case["seeds"]:
        source = Source(case["n"])
        data = ShuffledDataset(source, seed, case["batch"])
        mine = []
        for _ in range(12):
            mine.append([source.index[id(x)] for x in data])
        orders.append(mine)
        # (one coincidence in a million is possible: iterations draw one of 1000000 seeds)
        check(len({tuple(o) for o in mine}) >= 10, "successive iterations have the same order", case["n"], case["batch"], seed)
        check(any(o != sorted(o) for o in mine), "nothing is shuffled", case["n"], case["batch"], seed)
    flat = [tuple(o) for mine in orders for o in mine]
    check(len({tuple(m[0]) for m in orders}) >= len(orders) - 1, "different seeds give the same order", case["seeds"])
    # documents everywhere (also at the very beginning and end) take part: over 48 orders each position changes at least once
    for p in range(case["n"]):
        if case["batch"] >= 8 and p < case["n"] - case["batch"] and case["n"] > case["batch"]:
            check(any(o[p] != p for o in flat), "document at this position is never moved", p)
    if case["batch"] >= 8:
        check(any(o[-1] != case["n"] - 1 for o in flat), "the last document is never moved")
    ctx.nontrivial()


@st.composite
def files(draw):
    return {"n": draw(st.integers(0, 12)), "batch": draw(st.integers(1, 6)), "seed": draw(st.integers(0, 1000)), "size": draw(st.sampled_from([None, 1, 2, 3]))}


def run_file(case, ctx):
    """the data set as the experiment uses it: one document per sentence of a file, read anew in every iteration"""
    import os
    path = os.path.join(ctx.scratch(), "data.conllu")
    text = "".join("1\tw{0}\tl{0}\tN\t_\t_\t0\troot\t_\t_\n2\tv{0}\tl\tN\t_\t_\t1\tr\t_\t_\n\n".format(i) for i in range(case["n"]))
    with open(path, "w", encoding="utf-8") as f:
        f.write(text)
    if case["size"] is None:
        plain = CoNLLUDataSet(path)
        size = 1
    else:
        plain = CoNLLUDataSet(path, CoNLLUReader(case["size"]))
        size = case["size"]
    words = [[t.text for t in d.tokens] for d in plain]
    expected = [["w{}".format(i), "v{}".format(i)] for i in range(case["n"])]
    expected = [sum(expected[i:i + size], []) for i in range(0, case["n"], size)]
    check_eq(words, expected, "documents of the file")
    check_eq([[t.text for t in d.tokens] for d in plain], expected, "documents of the file, read again")
    data = ShuffledDataset(plain, case["seed"], case["batch"])
    again = ShuffledDataset(CoNLLUDataSet(path, CoNLLUReader(size)), case["seed"], case["batch"])
    for _ in range(3):
        got = [[t.text for t in d.tokens] for d in data]
        check_eq(sorted(got), sorted(expected), "documents of a shuffled iteration")
        check_eq([[t.text for t in d.tokens] for d in again], got, "order in a second data set with the same seed")
    with open(path, encoding="utf-8") as f:
        check_eq(f.read(), text, "data file")
    ctx.nontrivial(len(expected) > case["batch"])


PROGRAM = """
import json, sys
from babylondigger.evaluation.dataset import ShuffledDataset
result = []
for n, batch, seed, starts in json.load(sys.stdin):
    data = ShuffledDataset(range(n), seed, batch)
    unfinished = []
    for k in range(starts):
        unfinished.append(iter(data))
        next(unfinished[-1])
    result.append(list(data))
json.dump(result, sys.stdout)
"""


@st.composite
def processes(draw):
    return {"sets": draw(st.lists(st.tuples(st.integers(2, 60), st.integers(2, 60), st.one_of(st.integers(0, 3), st.integers(-2 ** 40, 2 ** 70)), st.integers(0, 3)), min_size=20, max_size=40)),
            "hash": draw(st.integers(1, 1000))}


def run_process(case, ctx):
    """the order is the same in another process"""
    def run(salt):
        env = dict(os.environ, PYTHONHASHSEED=str(salt), PYTHONDONTWRITEBYTECODE="1", PYTHONPATH=os.pathsep.join(p for p in sys.path if p))
        done = subprocess.run([sys.executable, "-c", PROGRAM], input=json.dumps(case["sets"]).encode(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, cwd=ctx.scratch())
        check_eq(done.returncode, 0, "exit code of the process: " + done.stderr.decode("utf-8", "replace")[-500:])
        return json.loads(done.stdout.decode())
    orders = []
    for n, batch, seed, starts in case["sets"]:
        data = ShuffledDataset(range(n), seed, batch)
        unfinished = []
        for k in range(starts):
            unfinished.append(iter(data))
            next(unfinished[-1])
        orders.append(list(data))
    check_eq(run(case["hash"]), orders, "orders in another process")
    ctx.nontrivial()


CHECKS = [Check("histories", histories, run_history, quick=12000, thorough=400000, chunk=100),
          Check("fresh", fresh, run_fresh, quick=600, thorough=20000, chunk=50),
          Check("files", files, run_file, quick=1600, thorough=40000, chunk=50),
          Check("processes", processes, run_process, quick=32, thorough=800, chunk=2)]
