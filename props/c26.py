import math
import os

import numpy as np
from hypothesis import strategies as st

from lib import tf1
from lib.core import Check, check, check_eq

PROPERTY = "C26"
RULE = ("cases are a feature and task configuration, training data and a batch of sentences; the network is built and run in TensorFlow; non-trivial: the batch has "
        "sentences of different lengths")
ASSUMPTIONS = ["TensorFlow 1 is emulated by tensorflow.compat.v1; tf.layers.dense, tf.layers.dropout and LSTMCell, which it lacks, are defined in lib/tf1.py",
               "losses are compared with a relative tolerance of 1e-3"]

SHARED = ["WE_charCNN", "BiLSTM", "BiLSTM_CNN", "Dilated_CNN", "BiLSTM", "BiLSTM_CNN", "WE_charCNN"]
TASKS = [["pos_dense"], ["lemma_suffix"], ["lemma_dense"], ["lemma_combo"], ["lemma_binary"], ["pos_dense", "lemma_suffix"], ["pos_dense", "lemma_combo"],
         ["lemma_dense", "pos_dense"], ["lemma_binary", "pos_dense"], ["pos_dense", "lemma_dense", "lemma_suffix"]]
LABEL = {"pos_dense": "pos_labels", "lemma_dense": "lemma_labels", "lemma_suffix": "lemma_rule_labels", "lemma_binary": "lemma_rule_labels", "lemma_combo": "output_subwords"}
TOL = 1e-3


def setup():
    tf1.install()


_WORD = st.text("abc", min_size=1, max_size=5)
_LEMMA = st.one_of(st.just(None), st.text("abc", min_size=1, max_size=5))


@st.composite
def subwords(draw, small):
    agg = draw(st.sampled_from(["cnn", "average", "self-attention"] if small else ["cnn", "average", "self-attention", "rnn"]))
    kernels = draw(st.lists(st.tuples(st.integers(1, 3), st.integers(1, 4), st.integers(1, 2)), min_size=1, max_size=2))
    return {"aggregator": agg, "embed_size": draw(st.integers(1, 4)), "min_frequency": draw(st.integers(0, 3)), "highway_layer": draw(st.booleans()),
            "kernels": kernels, "cell": draw(st.integers(1, 3)), "layers": draw(st.sampled_from([1, 1, 2])), "pretrained": draw(st.integers(0, 2)) == 1,
            "trainable": draw(st.booleans())}


@st.composite
def cases(draw):
    shared = draw(st.sampled_from(SHARED))
    words = draw(st.lists(st.tuples(_WORD, _LEMMA, st.integers(0, 2), st.integers(0, 2), st.integers(0, 3)), min_size=draw(st.sampled_from([1, 4, 4])), max_size=6))
    if draw(st.integers(0, 3)) > 0:  # different tags, so that there is something to choose from
        words = [(w, l, (u + i) % 3, (x + i // 2) % 3, (f + i) % 4) for i, (w, l, u, x, f) in enumerate(words)]
    sentence = st.lists(st.integers(0, len(words) - 1), min_size=1, max_size=5)
    train = draw(st.lists(sentence, min_size=1, max_size=4))
    if draw(st.integers(0, 3)) > 0:
        train.append(list(range(len(words))))
    batch = draw(st.lists(st.lists(st.integers(0, len(words) + 1), min_size=1, max_size=5), min_size=draw(st.sampled_from([3, 1, 2, 3])), max_size=4))
    feats = draw(st.lists(st.sampled_from(["word_embedding", "word_trained_embedding", "word_characters", "bpe_subwords"]), min_size=1, max_size=3, unique=True))
    return {"shared": shared, "words": words, "train": train, "batch": batch, "features": feats,
            "unknown": draw(st.tuples(_WORD, _WORD)),
            "we": {"dense": draw(st.sampled_from([None, 2, 3])), "trainable": draw(st.booleans()), "lowercase": draw(st.booleans()), "size": draw(st.integers(1, 4)),
                   "known": draw(st.integers(1, 63)), "header": draw(st.booleans())},
            "te": {"size": draw(st.integers(1, 4)), "trainable": draw(st.booleans()), "lowercase": draw(st.booleans()), "min_frequency": draw(st.integers(0, 3))},
            "sub": [draw(subwords(shared.startswith("BiLSTM"))), draw(subwords(True))],
            "cell": draw(st.integers(1, 4)), "layers": draw(st.sampled_from([2, 1])), "skip": draw(st.sampled_from([None, "concat", None, "sum"])),
            "use_skip": draw(st.booleans()), "kernels": draw(st.lists(st.tuples(st.integers(1, 3), st.integers(1, 4), st.integers(1, 3)), min_size=1, max_size=2)),
            "tasks": draw(st.sampled_from(TASKS)), "dense": draw(st.integers(1, 5)), "splitting": draw(st.sampled_from(["pos_UXF", "pos_gran", "pos_XF", "pos_joint"])),
            "weights": draw(st.sampled_from([None, {"default": 0.5}, {"default": 0.25, "UPOS": 2.0, "LEMMA": 0.5}, {"default": 1.0, "FEATS": 0.125, "XPOS": 0.5}, {"default": 0.5, "UPOS": 0.0},
                                               {"default": 0.0, "UPOS": 1.0, "LEMMA": 2.0}, {"default": 1.0, "XPOS": 0.0, "FEATS": 0.0, "A": 0.0}])),
            "threshold": draw(st.sampled_from([0, 0, 1, 2])), "max_len": draw(st.integers(1, 7)), "combo_weight": draw(st.sampled_from([1.0, 0.25])), "combo_highway": draw(st.booleans()),
            "combo_pretrained": draw(st.integers(0, 2)) == 1,
            "optimizer": draw(st.sampled_from(["Adam", "GD", "RMSProp"])), "seed": draw(st.integers(0, 1000)), "store": draw(st.sampled_from(["no", "save", "twin", "no"])),
            "more": draw(st.sampled_from([0] * 9 + [70, 0, 0])), "omit": draw(st.booleans()), "noise": draw(st.integers(0, 2 ** 31)), "scale": draw(st.sampled_from([1, 0, 5, 1, 40]))}


def documents(case, sentences, words=None):
    from babylondigger.datamodel import Document, Token, Sentence, Pos
    words = words or case["words"] + [[t, t, 0, 0, 0] for t in case["unknown"]]
    text, tokens, bounds = "", [], []
    for s in sentences:
        first = len(tokens)
        for i in s:
            t, lemma, u, x, f = words[i]
            feats = [{}, {"A": "1"}, {"A": "2", "B": "1"}, {"B": "1"}][f] if f < 4 else {"F{}".format(f % 11): str(f)}
            tokens.append(Token(len(text), len(text) + len(t), pos=Pos("U{}".format(u), ["X", "Y", None][x], feats), lemma=t if lemma is None else lemma))
            text += t + " "
        bounds.append(Sentence(first, len(tokens)))
    return Document(text, tokens, bounds)


def many(case):
    """more words: with many labels, many features and many parts of labels"""
    return [["".join("abc"[i // k % 3] for k in (1, 3, 9, 27)), "c" * (i % 7) + "".join("ab"[i >> k & 1] for k in range(7)), 3 + i, 0, 4 + i] for i in range(case["more"])]


def defaults(case, config):
    """features which are switched off need not be mentioned"""
    if case["omit"]:
        for key, value in (("highway_layer", False), ("bilstm_layer_count", 1), ("skip_connection", None)):
            if key in config and config[key] == value:
                del config[key]
    return config


def vectors(path, names, size, salt, header=True):
    rnd = np.random.RandomState(salt)
    rows = {n: [round(float(v), 3) for v in rnd.uniform(-2, 2, size)] for n in names}
    with open(path, "w") as f:
        if header or size == 1:
            f.write("{} {}\n".format(len(rows), size))
        for n, v in rows.items():
            f.write("{} {}\n".format(n, " ".join(map(str, v))))
    return rows


def config(case, scratch):
    """-> shared, tasks, general, {initializer name: (rows, size, number of reserved rows, trainable)}, shared name"""
    features, pretrained, width = {}, {}, 0
    for f in case["features"]:
        if f == "word_embedding":
            we = case["we"]
            path = os.path.join(scratch, "we.txt")
            names = [w[0] for i, w in enumerate(case["words"]) if we["known"] >> i & 1] or ["zz"]
            rows = vectors(path, dict.fromkeys(names), we["size"], 1, we["header"])
            features[f] = {"path": path, "trainable": we["trainable"], "lowercase": we["lowercase"]}
            if we["dense"]:
                features[f]["we_dense_size"] = we["dense"]
            pretrained["word_embeddings"] = (rows, we["size"], 2, we["trainable"])
            width += we["dense"] or we["size"]
        elif f == "word_trained_embedding":
            features[f] = dict(case["te"])
            width += case["te"]["size"]
        else:
            sub = case["sub"][f == "bpe_subwords"]
            kernels = [{"size": a, "count": b, "dilation": c} for a, b, c in sub["kernels"]]
            out = {"cnn": kernels[-1]["count"], "rnn": 2 * sub["cell"]}.get(sub["aggregator"], sub["embed_size"])
            features[f] = {"segmenter": "char", "embed_size": sub["embed_size"], "min_frequency": sub["min_frequency"], "aggregator": sub["aggregator"],
                           "highway_layer": sub["highway_layer"], "trainable": sub["trainable"],
                           "aggregator_config": {"cnn_kernels": kernels, "lstm_cell_size": sub["cell"], "bilstm_layer_count": sub["layers"]}}
            defaults(case, features[f])
            if f == "bpe_subwords":
                features[f].update(segmenter="bpe", segmenter_config={"language": "xx", "vocab_size": 2})
            if sub["pretrained"]:
                path = os.path.join(scratch, f + ".txt")
                rows = vectors(path, ["a", "b", "ab", "ca"], sub["embed_size"], 2)
                features[f]["embedding_path"] = path
                pretrained["characters" if f == "word_characters" else f] = (rows, sub["embed_size"], 4, sub["trainable"])
            width += out
    shared_config, name, skipped = {}, "word_features", None
    kernels = [{"size": a, "count": b, "dilation": c} for a, b, c in case["kernels"]]
    skip = case["skip"]
    if case["shared"].startswith("BiLSTM"):
        cell = case["cell"]
        if skip == "sum":
            if width % 2:
                skip = "concat"
            else:
                cell = width // 2
        shared_config = {"lstm_cell_size": cell, "bilstm_layer_count": case["layers"], "cnn_kernels": kernels}
        name, skipped = "bilstm", "bilstm_and_word_features"
        if case["shared"] == "BiLSTM_CNN":
            name = skipped = "bilstm_cnn"
    elif case["shared"] == "Dilated_CNN":
        if skip == "sum":
            kernels[-1]["count"] = width
        shared_config = {"cnn_kernels": kernels}
        name, skipped = "dilated_cnn", "dilated_cnn_and_word_features"
    else:
        skip = None
    if skip is not None:
        shared_config["skip_connection"] = skip
        if case["use_skip"]:
            name = skipped
    defaults(case, shared_config)
    tasks = []
    for t in case["tasks"]:
        c = {"shared_name": name, "dense_size": case["dense"]}
        fc = {}
        if t == "pos_dense":
            c["splitting"] = case["splitting"]
        if t in ("pos_dense", "lemma_dense", "lemma_suffix") and case["weights"] is not None:
            c["loss_weights"] = case["weights"]
        if t in ("lemma_suffix", "lemma_binary"):
            fc["lemma_suffix_transformation"] = {"rules_threshold": case["threshold"]}
        if t == "lemma_combo":
            embed = 3
            ks = [{"size": a, "count": b, "dilation": d} for a, b, d in case["kernels"]]
            if case["combo_highway"]:
                ks[-1]["count"] = embed
            c.update(cnn_bilstm_dense_size=2, cnn_kernels=ks, loss_weights={"LEMMA": case["combo_weight"]})
            fc["input_subwords"] = {"embed_size": embed, "min_frequency": 1, "segmenter": "char", "highway_layer": case["combo_highway"], "trainable": True}
            defaults(case, fc["input_subwords"])
            if case["combo_pretrained"]:
                path = os.path.join(scratch, "combo.txt")
                rows = vectors(path, ["c", "a", "b"], embed, 3)
                fc["input_subwords"]["embedding_path"] = path
                pretrained["input_subwords"] = (rows, embed, 4, True)
            fc["output_subwords"] = {"max_word_length": case["max_len"], "min_frequency": 1, "segmenter": "char"}
        tasks.append({"builder": t, "config": c, "features_config": fc})
    general = {"optimizer": {"type": case["optimizer"], "lr_decrease_factor": 2, "initial_lr": 0.1, "lr_decay": 0.0}}
    return {"builder": case["shared"], "config": shared_config, "features_config": features}, tasks, general, pretrained


def close(a, b):
    return abs(a - b) <= TOL * (1 + abs(b)) or a == b


def run(case, ctx):
    tf = tf1.install()
    from lib import features
    from babylondigger.neural.model import Model
    from babylondigger.neural.tagger.network_provider import get_nn_builder
    from babylondigger.features.provider import FeatureExtractorBuilderProvider
    scratch = ctx.scratch()
    extra = many(case)
    train = features.DataSet([documents(case, [s]) for s in case["train"]] + ([documents(case, [list(range(len(extra)))], extra)] if extra else []))
    batch = features.sentences([documents(case, case["batch"])] + ([documents(case, [[0, len(extra) - 1]], extra)] if extra else []))
    shared, tasks, general, pretrained = config(case, scratch)

    def build():
        builder = get_nn_builder(shared, tasks, general, case["seed"])
        extractors = FeatureExtractorBuilderProvider(builder.feature_providers()).build(train)
        return builder.build(extractors[3].shapes()) + tuple(extractors)

    network, graph, extract, label, interpreter, initializer = build()
    sizes = {}  # label name -> sizes of its parts
    weights = {}
    for t in case["tasks"]:
        announced = initializer.shapes()[LABEL[t]]
        if t == "lemma_combo":
            sizes[LABEL[t]] = [announced[0]] * case["max_len"]
            weights[LABEL[t]] = [case["combo_weight"] / case["max_len"]] * case["max_len"]
        else:
            sizes[LABEL[t]] = list(announced.values())
            w = case["weights"]
            weights[LABEL[t]] = [1.0 if w is None else w.get(part, w["default"]) for part in announced] if t != "lemma_binary" else [None]

    def feed(sentences):
        gold = dict(label.get_features(sentences))
        if "lemma_labels" in gold:  # lemmas outside of the training data have no label
            gold["lemma_labels"] = [[[min(l, sizes["lemma_labels"][0] - 1) for l in t] for t in s] for s in gold["lemma_labels"]]
        return dict(extract.get_features(sentences)), gold

    fed, gold = feed(batch)
    lengths = [s.tokens_count for s in batch]
    width = max(lengths)
    session = tf.Session(graph=graph)
    with Model(network, session) as model:
        model.initialize(**initializer.initial_values())

        def loss(f, g, lr=0.0, keep=1.0):
            # learning rate 0: nothing is changed
            return float(model.train(f, dict(g, learning_rate=lr, dropout_probability=keep)))

        # pretrained vectors
        def matrices(size):
            with graph.as_default():
                return [m for v, m in ((v, session.run(v)) for v in tf.global_variables()) if list(m.shape) == size]

        def pretrained_in_place(names, when):
            for name in names:
                rows, size, reserved, _ = pretrained[name]
                want = {reserved + i: v for i, v in enumerate(rows.values())}
                want[0] = [0.0] * size
                check(any(all(np.allclose(m[i], v, atol=1e-6) for i, v in want.items()) for m in matrices([reserved + len(rows), size])),
                      "pretrained vectors are not in place " + when, name)
        pretrained_in_place(pretrained, "after initialization")
        rnd = np.random.RandomState(case["noise"])

        def randomize(scale):
            # any other state of the network, as training could lead to
            with graph.as_default():
                for v in tf.trainable_variables():
                    v.load(rnd.uniform(-1, 1, v.shape.as_list()).astype("float32") * scale, session)
        if case["scale"] and case["store"] != "twin":
            randomize(case["scale"])

        def mean_over_tokens(fed, gold, lengths, predicted, base):
            """the loss is the mean over all tokens of the batch"""
            total = 0.0
            for s, n in enumerate(lengths):
                one = {k: [v[s]] if k == "sentences_lengths" else [v[s][:n]] for k, v in fed.items()}
                total += n * loss(one, {k: [v[s][:n]] for k, v in gold.items()})
                for name, values in model.predict(one).items():
                    check_eq(np.asarray(values)[0].tolist(), np.asarray(predicted[name])[s][:n].tolist(), "prediction for a sentence alone and in a batch")
            check(close(total / sum(lengths), base), "loss of the batch is not the mean over its tokens", total / sum(lengths), base)

        # predictions
        def valid(predicted, n, width):
            check_eq(set(predicted), set(sizes), "names of predicted labels")
            for name, parts in sizes.items():
                values = np.asarray(predicted[name])
                check_eq(list(values.shape), [n, width, len(parts)], "shape of predictions")
                check(np.issubdtype(values.dtype, np.integer), "type of predictions")
                check(bool((values >= 0).all()) and bool((values < np.array(parts)).all()), "predicted labels out of range", name, values.tolist(), parts)

        predicted = model.predict(fed)
        valid(predicted, len(batch), width)

        def only_applicable(predicted):
            applicable = fed["applicable_rules"]
            for s, n in enumerate(lengths):
                for t in range(n):
                    if any(applicable[s][t]):
                        rule = int(predicted["lemma_rule_labels"][s][t][0])
                        check(applicable[s][t][rule], "inapplicable rule is predicted", batch[s][t].text, rule)
        if "lemma_rule_labels" in sizes:
            only_applicable(predicted)
        base = loss(fed, gold)
        again = model.predict(fed)
        for name in sizes:
            check_eq(np.asarray(again[name]).tolist(), np.asarray(predicted[name]).tolist(), "repeated prediction of " + name)

        # padding does not matter
        noisy = {k: noise(v, lengths, rnd, sizes.get(k)) for k, v in gold.items()}
        check(close(loss(fed, noisy), base), "loss depends on labels at padding positions", loss(fed, noisy), base)
        independent = case["shared"] != "Dilated_CNN"
        if independent:
            noisy_fed = {k: v if k == "sentences_lengths" else noise(v, lengths, rnd, None) for k, v in fed.items()}
            check(close(loss(noisy_fed, gold), base), "loss depends on features at padding positions", loss(noisy_fed, gold), base)
            for name, values in model.predict(noisy_fed).items():
                for s, n in enumerate(lengths):
                    check_eq(np.asarray(values)[s][:n].tolist(), np.asarray(predicted[name])[s][:n].tolist(), "prediction depends on features at padding positions")

            mean_over_tokens(fed, gold, lengths, predicted, base)

        # words and sentences of other lengths
        for n in range(1, 10):
            word = ("abcba" * 2)[n % 3:][:n]
            f, g = feed(features.sentences([documents(case, [[0]], [[word, word[:2], 0, 0, 0]])]))
            valid(model.predict(f), 1, 1)
            check(not math.isnan(loss(f, g)), "loss is not a number", word)
        sents = [[i % len(case["words"]) for i in range(k, k + n)] for k, n in enumerate((1, 13, 7))]
        f, g = feed(features.sentences([documents(case, sents)]))
        p = model.predict(f)
        valid(p, 3, 13)
        if independent:
            mean_over_tokens(f, g, [1, 13, 7], p, loss(f, g))

        # characters behind the longest word the lemmatizer considers
        if "lemma_combo" in case["tasks"]:
            for f, g in ((fed, gold), (f, g)):
                longest = len(f["input_subwords"][0][0])
                if longest >= case["max_len"]:
                    ctx.label("padded characters")
                    longer = dict(f, input_subwords=[[list(w) + [0] * (1 + longest % 3) for w in sent] for sent in f["input_subwords"]])
                    check(close(loss(longer, g), loss(f, g)), "loss depends on padding of the characters", loss(longer, g), loss(f, g))
                    check_eq(np.asarray(model.predict(longer)["output_subwords"]).tolist(), np.asarray(model.predict(f)["output_subwords"]).tolist(),
                             "prediction depends on padding of the characters")

        # loss against prediction: one sentence of one token, every label of every part
        s = int(rnd.randint(len(batch)))
        one = {k: [1] if k == "sentences_lengths" else [v[s][:1]] for k, v in fed.items()}
        labels = {k: [[list(map(int, v[s][0]))]] for k, v in gold.items()}
        start = loss(one, labels)
        guess = {k: np.asarray(v)[0][0].tolist() for k, v in model.predict(one).items()}
        explained, complete = 0.0, True
        for name, parts in sizes.items():
            for k, size in enumerate(parts):
                if k > 3 and name == "output_subwords" and size * len(parts) > 30:
                    complete = False
                    break
                losses = []
                for value in range(size):
                    other = {n: [[list(v[0][0])]] for n, v in labels.items()}
                    other[name][0][0][k] = value
                    losses.append(loss(one, other))
                check(all(not math.isnan(x) for x in losses), "loss is not a number", name, losses)
                if name == "lemma_rule_labels" and not any(one["applicable_rules"][0][0]):
                    complete = False
                    continue
                check(close(losses[guess[name][k]], min(losses)), "predicted label does not have the least loss", name, k, guess[name][k], losses)
                if weights[name][k] is None or not math.isfinite(start) or start > 1e6:
                    complete = False
                    continue
                w = weights[name][k]
                if w == 0:
                    check(max(losses) - min(losses) <= TOL * (1 + abs(start)), "loss depends on a part of weight 0", name, k, losses)
                    continue
                low = min(losses)
                rest = low - w * math.log(sum(math.exp(-(x - low) / w) for x in losses))  # loss without this part
                explained += losses[labels[name][0][0][k]] - rest
        if complete:
            check(abs(explained - start) <= 1e-2 * (1 + abs(start)), "loss is not the weighted sum of the losses of its parts", explained, start)

        # the same in other states of the network, for other tokens
        choices = [(name, k) for name, parts in sizes.items() for k, size in enumerate(parts) if 1 < size <= 9 and name != "lemma_rule_labels"]
        before = None
        if choices:
            ctx.label("choices")
            with graph.as_default():
                before = [(v, session.run(v)) for v in tf.global_variables()]
            for i in range(4):
                randomize((1, 3)[i % 2])
                s = int(rnd.randint(len(batch)))
                at = int(rnd.randint(lengths[s]))
                one_gold = {n: [[list(map(int, x)) for x in v[s][:lengths[s]]]] for n, v in gold.items()}
                one = {n: [v[s]] if n == "sentences_lengths" else [v[s][:lengths[s]]] for n, v in fed.items()}
                guess = model.predict(one)
                for name, k in [choices[int(j)] for j in rnd.choice(len(choices), min(2, len(choices)), replace=False)]:
                    losses = []
                    for value in range(sizes[name][k]):
                        other = {n: [[list(x) for x in v[0]]] for n, v in one_gold.items()}
                        other[name][0][at][k] = value
                        losses.append(loss(one, other))
                    value = int(np.asarray(guess[name])[0][at][k])
                    check(close(losses[value], min(losses)), "predicted label does not have the least loss", name, k, value, losses)
            with graph.as_default():
                for v, x in before:
                    v.load(x, session)

        if case["store"] == "save":
            path = os.path.join(scratch, "model")
            os.makedirs(path)
            model.save(path)
        for _ in range(2):
            loss(fed, gold, 0.05)
        pretrained_in_place([n for n in pretrained if not pretrained[n][3]], "after training (not trainable)")
        if "lemma_rule_labels" in sizes:
            for scale in (1, 7, 50, 1000, 50, 7, 50, 1000):
                randomize(scale)
                only_applicable(model.predict(fed))
        # training lowers the loss
        lowered, steps = False, 0
        for _ in range(6):
            randomize(1)
            first = loss(fed, gold)
            if math.isfinite(first) and first < 1e3:
                steps += 1
                for _ in range(20):
                    loss(fed, gold, 0.01)
                last = loss(fed, gold)
                check(last <= first + 0.1 * (1 + first), "loss rises in training", first, last)
                lowered = last < first
                if lowered:
                    break
        ctx.label("trained", lowered)
        # (labels with a bias of their own: there is always something to learn)
        check(lowered or not steps or not any(w and size > 1 for t in case["tasks"] if t in ("pos_dense", "lemma_dense") for w, size in zip(weights[LABEL[t]], sizes[LABEL[t]])),
              "the network does not learn")

        # the label of every token counts
        f, g = feed(features.sentences([documents(case, sents)]))
        flips = [(LABEL[t], k) for t in case["tasks"] if t in ("pos_dense", "lemma_dense")  # (they have biases: no ties)
                 for k, (w, size) in enumerate(zip(weights[LABEL[t]], sizes[LABEL[t]])) if w and size > 1]
        if flips and loss(f, g) < 1e3:
            ctx.label("labels of all tokens")
            name, k = flips[case["noise"] % len(flips)]
            open_ = [(s, t) for s, n in enumerate((1, 13, 7)) for t in range(n)]
            for _ in range(6):
                randomize(1)
                first = loss(f, g)
                for s, t in list(open_):
                    other = {n: v if n != name else [[list(x) for x in row] for row in v] for n, v in g.items()}
                    other[name][s][t][k] = (other[name][s][t][k] + 1) % sizes[name][k]
                    if abs(loss(f, other) - first) > 1e-5 * (1 + abs(first)):
                        open_.remove((s, t))
                if not open_:
                    break
            check(not open_, "the loss does not depend on the label of a token", name, k, open_)

        # dropout: with three units no state of the network is likely to hide it, with ten states there is none
        dropping = [w != 0 and size > 1 for t in case["tasks"] if t in ("pos_dense", "lemma_dense") for w, size in zip(weights[LABEL[t]], sizes[LABEL[t]])]
        if any(dropping) and case["dense"] >= 3 and sum(lengths) >= 3:
            ctx.label("dropout")
            varies = not base < 1e3  # (changes of greater losses, because of inapplicable rules, cannot be seen)
            for _ in range(0 if varies else 10):
                randomize(1)
                first = loss(fed, gold)
                if any(abs(loss(fed, gold, keep=0.5) - first) > 1e-5 * (1 + abs(first)) for _ in range(4)):
                    varies = True
                    break
            check(varies, "dropout has no effect in training")
            steady = model.predict(fed)
            for _ in range(4):
                for name, values in model.predict(fed).items():
                    check_eq(np.asarray(values).tolist(), np.asarray(steady[name]).tolist(), "repeated prediction of " + name)

        if case["store"] == "save":
            with Model.load(path) as restored:
                for name, values in restored.predict(fed).items():
                    check_eq(np.asarray(values).tolist(), np.asarray(predicted[name]).tolist(), "prediction of the restored model")
                got = float(restored.train(fed, dict(gold, learning_rate=0.0, dropout_probability=1.0)))
                check(close(got, base), "loss of the restored model", got, base)
    if case["store"] == "twin":
        network, graph, _, _, _, twin_initializer = build()
        with Model.new(network, graph) as twin:
            twin.initialize(**twin_initializer.initial_values())
            got = float(twin.train(fed, dict(gold, learning_rate=0.0, dropout_probability=1.0)))
            check(close(got, base), "networks with the same seed differ", got, base)
    ctx.nontrivial(len(set(lengths)) > 1)
    ctx.label(case["shared"])
    for t in case["tasks"]:
        ctx.label(t)
    for f in case["features"]:
        ctx.label(f)
    ctx.label("pretrained", bool(pretrained))
    ctx.label("loss explained", complete)
    ctx.label("many labels", case["more"] > 0)
    ctx.label("saved", case["store"] == "save")


def noise(values, lengths, rnd, sizes):
    """other values at the positions of padding tokens"""
    result = []
    for row, n in zip(values, lengths):
        result.append(list(row[:n]) + [random_like(v, rnd, sizes) for v in row[n:]])
    return result


def random_like(value, rnd, sizes):
    if isinstance(value, list):
        if sizes is not None:
            return [int(rnd.randint(size)) for size in sizes]
        return [random_like(v, rnd, None) for v in value]
    if isinstance(value, bool):
        return bool(rnd.randint(2))
    return int(rnd.randint(2))  # padding or unknown: identifiers in every vocabulary


CHECKS = [Check("network", cases, run, quick=240, thorough=12000, chunk=10, timeout=300)]
