import functools
import itertools
import random
from copy import deepcopy

from hypothesis import strategies as st

from lib import gen, docs
from lib.core import Check, Violation, check, check_eq

from babylondigger.datamodel import Document, Token, Sentence, Pos, TokenExtras, DocumentToken

PROPERTY = "C04"
RULE = ("derive: histories of derivations, documents built from the results, and mutations of everything passed in or handed out; non-trivial: "
        "a history with at least two derivations and one mutation. tags: lists of tags from a small space compared pairwise; non-trivial: "
        "contains equal tags and a tag with a missing part. documents: a document against variants changed in one place; non-trivial: always "
        "except for empty documents. from_document: new token lists for a document; non-trivial: more than one token")
ASSUMPTIONS = ["token equality is compared between tokens whose heads are given in the same notation"]

# ---------------------------------------------------------------- tags

SMALL = st.sampled_from([None, None, "", "A", "B", "a", "\u00e9"])
SMALL_FEATS = st.one_of(st.none(), st.dictionaries(st.sampled_from("ABab"), st.sampled_from(["", "1", "2", "A"]), max_size=3))
TAG = st.tuples(SMALL, SMALL, SMALL_FEATS)


def tag_lists():
    return st.lists(TAG, min_size=2, max_size=6)


def make_pos(t, reverse=False):
    u, x, f = t
    if f is not None and reverse:
        f = dict(reversed(list(f.items())))
    if f is None and x is None and reverse:
        return Pos(u)
    return Pos(u, x, f)


def content(t):
    return t[0], t[1], t[2] or {}


def run_tags(case, ctx):
    tags = [tuple(t) for t in case]
    objs = [make_pos(t) for t in tags]
    others = [make_pos(t, True) for t in tags]
    ctx.label("missing part", any(None in t for t in tags))
    equal_pairs = any(content(a) == content(b) for a, b in itertools.combinations(tags, 2))
    ctx.label("equal tags", equal_pairs)
    ctx.nontrivial(any(t[0] is None or t[1] is None for t in tags) and len(tags) > 2)
    for (ta, a), (tb, b) in itertools.product(zip(tags, objs), zip(tags, others)):
        eq = content(ta) == content(tb)
        check_eq(a == b, eq, "equality of {} and {}".format(a, b))
        check_eq(a != b, not eq, "inequality of {} and {}".format(a, b))
        if eq:
            check_eq(hash(a), hash(b), "hash of equal tags")
        lt, gt, le, ge = a < b, a > b, a <= b, a >= b
        check_eq([lt, eq, gt].count(True), 1, "exactly one of <, ==, > for {} and {}".format(a, b))
        check_eq(le, lt or eq, "<=")
        check_eq(ge, gt or eq, ">=")
        check_eq(b > a, lt, "antisymmetry")
    for a, b, c in itertools.permutations(objs, 3):
        if a < b and b < c:
            check(a < c, "order is not transitive", a, b, c)
    first = [(p.upos, p.xpos, p.feats) for p in sorted(objs)]
    second = [(p.upos, p.xpos, p.feats) for p in sorted(reversed(others))]
    check_eq(first, second, "sorting does not depend on the original order")
    check_eq(len(set(objs + others)), len({(u, x, tuple(sorted(f.items()))) for u, x, f in map(content, tags)}), "number of distinct tags in a set")
    for t, p in zip(tags, objs):
        for foreign in (None, "A", 1, (t[0], t[1]), object()):
            check(not (p == foreign) and p != foreign, "tag equals to foreign object", p, foreign)
        for k in "ABab":
            check_eq(p.feature(k), (t[2] or {}).get(k), "feature")
        check_eq((p.upos, p.xpos, p.feats), content(t), "content of the tag")


# ---------------------------------------------------------------- derivation histories

EXTRAS = st.dictionaries(st.sampled_from("abc"), st.one_of(st.none(), st.integers(0, 3), st.lists(st.integers(0, 3), max_size=2),
                                                         st.dictionaries(st.sampled_from("xy"), st.lists(st.integers(0, 1), max_size=1), max_size=1),
                                                         st.sampled_from(["s", "@set", "@tuple", "@bytes", "@box", "@boxes", "@deep", "@many"])), max_size=2)
LEMMA = st.sampled_from([None, "l", "m", ""])
HEAD = st.one_of(st.none(), st.tuples(st.sampled_from("sdb"), st.integers(-1, 5)))
OPS = st.one_of(
    st.tuples(st.just("new"), TAG, LEMMA, HEAD, SMALL, EXTRAS, st.integers(0, 5), st.integers(0, 9)),
    st.tuples(st.just("morph"), st.integers(0, 99), st.one_of(st.none(), TAG), LEMMA),
    st.tuples(st.just("syntax"), st.integers(0, 99), SMALL, HEAD),
    st.tuples(st.just("extras"), st.integers(0, 99), st.one_of(st.none(), EXTRAS)),
    st.tuples(st.just("update"), st.integers(0, 99), st.one_of(st.none(), EXTRAS)),
    st.tuples(st.just("mutate"), st.integers(0, 99), st.integers(0, 99)),
    st.tuples(st.just("mutate"), st.integers(0, 99), st.integers(0, 99)),
    st.tuples(st.just("doc"), st.integers(1, 5), st.integers(0, 99)),
    st.tuples(st.just("take"), st.integers(0, 99), st.integers(0, 99), st.booleans()),
    st.tuples(st.just("compare"), st.integers(0, 99), st.integers(0, 99)),
    st.tuples(st.just("twin"), st.integers(0, 99), st.integers(0, 9)),
)


def histories():
    return st.tuples(st.tuples(st.just("new"), TAG, LEMMA, HEAD, SMALL, EXTRAS, st.integers(0, 5), st.integers(0, 9)),
                     st.one_of(st.lists(OPS, min_size=1, max_size=8), st.lists(OPS, min_size=8, max_size=30))).map(lambda p: [p[0]] + p[1])


WORDS = [(None, 0), (None, 0), ("w", 0), ("w", 1), ("v", 0), ("w", 2)]  # text inside of a multiword token and number of the word


def heads_kw(head):
    if head is None:
        return {}
    note, v = head
    kw = {}
    if note in "sb":
        kw["head_sentence_index"] = v
    if note in "db":
        kw["head_document_index"] = v
    return kw


class Box(object):
    """a value of extras of the user's own type"""

    def __init__(self, value):
        self.value = value

    def __eq__(self, other):
        return isinstance(other, Box) and self.value == other.value

    def __ne__(self, other):
        return not self == other

    __hash__ = None

    def __repr__(self):
        return "Box({!r})".format(self.value)


CODES = {"@set": lambda: {1, 2}, "@tuple": lambda: (1, [2], {"x": [3]}), "@bytes": lambda: bytearray(b"ab"), "@box": lambda: Box([1]),
         "@boxes": lambda: [Box([1]), {"x": Box({"y": 1})}], "@deep": lambda: {"x": [{"y": [[1], {"z": [2]}]}]}, "@many": lambda: [0]}


def values(extras):
    """extras from their codes; some have a lot of entries"""
    if extras is None:
        return None
    result = {k: CODES[v]() if isinstance(v, str) and v in CODES else deepcopy(v) for k, v in extras.items()}
    if "@many" in [v for v in extras.values() if isinstance(v, str)]:
        result.update(("k%d" % i, [i]) for i in range(300))
    return result


class World(object):
    """real objects next to their models"""

    def __init__(self):
        self.tokens = []     # (real token, model)
        self.documents = []  # (real document, text, [model], bounds)
        self.held = []       # mutable objects passed in or handed out

    def verify(self):
        for i, (real, m) in enumerate(self.tokens):
            verify_token(real, m, "token %d" % i)
        for real, text, models, bounds in self.documents:
            check_eq(real.text, text, "text of the document")
            check_eq([(s.start, s.end) for s in real.sentences_boundaries], bounds, "sentences of the document")
            check_eq(real.tokens_count, len(models), "number of tokens of the document")
            for t, m in zip(real.tokens, models):
                verify_token(t, m, "token of a document")


def verify_token(real, m, where):
    check_eq((real.start, real.end, real.sub_index, real.text_replacement), (m["start"], m["end"], m["sub"], m["repl"]), where + " position")
    if m["pos"] is None:
        check(real.pos is None, where + " has a tag", real.pos)
    else:
        check_eq((real.pos.upos, real.pos.xpos, real.pos.feats), content(m["pos"]), where + " tag")
    check_eq(real.lemma, m["lemma"], where + " lemma")
    check_eq(real.deprel, m["deprel"], where + " relation")
    check_eq(real.has_head, m["head"] is not None, where + " has_head")
    check_eq(real.is_root, m["head"] is not None and m["head"][1] == -1, where + " is_root")
    check_eq(real.extras.as_dict(), m["extras"], where + " extras")
    check_eq(sorted(real.extras.keys()), sorted(m["extras"]), where + " extras keys")
    for k in "abc":
        check_eq(k in real.extras, k in m["extras"], where + " extras membership")
        if k in m["extras"]:
            check_eq(real.extras[k], m["extras"][k], where + " extras item")
    if "text" in m:
        check_eq((real.text, real.doc_text, real.space_after), m["text"], where + " text")


def mutate(obj, code):
    """damages a mutable object as much as possible"""
    if isinstance(obj, Box):
        mutate(obj.value, code)
        if code % 2:
            obj.value = "mutated"
    elif isinstance(obj, tuple):
        for v in obj:
            mutate(v, code)
    elif isinstance(obj, set):
        obj.add("mutated")
    elif isinstance(obj, bytearray):
        obj.extend(b"mutated")
    elif isinstance(obj, dict):
        for v in list(obj.values()):
            mutate(v, code)
        if code % 3 == 0:
            obj.clear()
        elif code % 3 == 1:
            obj["a"] = "mutated"
        else:
            for k in list(obj):
                obj[k] = "mutated"
    elif isinstance(obj, list):
        for v in obj:
            mutate(v, code)
        if code % 2:
            obj.append("mutated")
        else:
            obj.clear()


def run_history(case, ctx):
    w = World()
    n_derived = n_mutated = 0
    for op in case:
        kind = op[0]
        ctx.label(kind)
        if kind == "new":
            _, tag, lemma, head, deprel, extras, mwt, start = op
            extras = values(extras)
            feats, ex = deepcopy(tag[2]), deepcopy(extras)
            pos = Pos(tag[0], tag[1], feats)
            w.held += [feats, ex]
            repl, sub = WORDS[mwt]
            real = Token(start, start + 2, pos=pos, lemma=lemma, deprel=deprel, text_replacement=repl, sub_index=sub,
                         extras=TokenExtras(ex), **heads_kw(head))
            w.tokens.append((real, {"start": start, "end": start + 2, "sub": sub, "repl": repl, "pos": deepcopy(tag), "lemma": lemma,
                                    "deprel": deprel, "head": head, "extras": deepcopy(extras)}))
            continue
        i = op[1] % len(w.tokens)
        real, m = w.tokens[i]
        cls = real.__class__ if kind in ("morph", "syntax", "extras", "update") else None
        if cls is not None and cls not in (Token, DocumentToken):
            cls = DocumentToken
        if kind == "morph":
            _, _, tag, lemma = op
            feats = deepcopy(tag[2]) if tag is not None else None
            w.held.append(feats)
            pos = Pos(tag[0], tag[1], feats) if tag is not None else None
            new = real.with_morphology(real, pos, lemma) if lemma is not None else real.with_morphology(real, pos)
            w.tokens.append((new, dict(m, pos=deepcopy(tag), lemma=lemma)))
            n_derived += 1
        elif kind == "syntax":
            _, _, deprel, head = op
            new = real.with_syntax(real, deprel, **heads_kw(head))
            w.tokens.append((new, dict(m, deprel=deprel, head=head)))
            n_derived += 1
        elif kind == "extras":
            given = values(op[2])
            ex = deepcopy(given)
            w.held.append(ex)
            new = real.with_extras(real, TokenExtras(ex)) if ex is not None else real.with_extras(real)
            w.tokens.append((new, dict(m, extras=deepcopy(given) or {})))
            n_derived += 1
        elif kind == "update":
            given = values(op[2])
            ex = deepcopy(given)
            w.held.append(ex)
            new = real.update_extras(real, ex)
            merged = deepcopy(m["extras"])
            merged.update(deepcopy(given) or {})
            w.tokens.append((new, dict(m, extras=merged)))
            n_derived += 1
        elif kind == "mutate":
            code = op[2]
            handed = list(w.held)
            if real.pos is not None:
                handed.append(real.pos.feats)
            handed.append(real.extras.as_dict())
            for k in list(real.extras):
                handed.append(real.extras[k])
            mutate(handed[code % len(handed)], code)
            for obj in handed[len(w.held):]:
                mutate(obj, code)
            n_mutated += 1
        elif kind == "doc":
            n = op[1]
            chosen = [w.tokens[(op[2] + j) % len(w.tokens)] for j in range(n)]
            toks, models, text = [], [], ""
            for j, (r, mm) in enumerate(chosen):
                # the same annotation at a place of its own; heads as the syntax of a chain
                s = 3 * j
                head = ("b", j - 1)
                tok = Token(s, s + 2, pos=r.pos, lemma=r.lemma, deprel=r.deprel, text_replacement=r.text_replacement,
                            head_sentence_index=j - 1, extras=r.extras)
                toks.append(tok)
                models.append(dict(mm, start=s, end=s + 2, sub=0, head=head))
                text += "ab "
            for j, mm in enumerate(models):
                mm["text"] = (mm["repl"] if mm["repl"] is not None else "ab", "ab", True)
            sents = [Sentence(0, n)]
            doc = Document(text, toks, sents)
            w.held += [toks, sents]
            w.documents.append((doc, text, models, [(0, n)]))
        elif kind == "take" and w.documents:
            doc, text, models, bounds = w.documents[op[1] % len(w.documents)]
            j = op[2] % len(models)
            t = doc[j] if op[3] else doc.get_sentence(0)[j]
            w.tokens.append((t, models[j]))
        elif kind == "compare":
            j = op[2] % len(w.tokens)
            other, om = w.tokens[j]
            ha, hb = m["head"], om["head"]
            if (ha is None) == (hb is None) and (ha is None or ha[0] == hb[0]) and ("text" in m) == ("text" in om):
                same = [visible(m)] == [visible(om)]
                check_eq(real == other, same, "equality of tokens {} {}".format(real, other))
                check_eq(real != other, not same, "inequality of tokens {} {}".format(real, other))
                check_eq(other == real, same, "symmetry of equality")
            check(not (real == "x") and real != None, "token equals to foreign object")  # noqa
            check_eq(real.extras == other.extras, m["extras"] == om["extras"], "equality of extras")
            check(not (real.extras == om["extras"]), "extras equal to a plain dictionary")
        elif kind == "twin" and "text" not in m:
            # a token made anew, which differs in one attribute at most
            twin = dict(m)
            what = op[2]
            if what == 0:
                twin["start"] += -1 if m["start"] else int(m["end"] > 1)
            elif what == 1:
                twin["end"] += 1
            elif what == 2 and m["repl"] is not None:
                twin["sub"] += 1
            elif what == 3:
                twin["repl"] = "w" if m["repl"] != "w" else "" if m["sub"] else None
            elif what == 4:
                twin["pos"] = (None, None, None) if m["pos"] is None else None
            elif what == 5:
                twin["lemma"] = None if m["lemma"] == "" else "" if m["lemma"] is None else m["lemma"].upper()
            elif what == 6:
                twin["deprel"] = None if m["deprel"] == "" else "" if m["deprel"] is None else m["deprel"] + "x"
            elif what == 7:
                twin["head"] = ("s", 0) if m["head"] is None else None if m["head"][1] else (m["head"][0], 1)
            elif what == 8:
                twin["extras"] = {"a": None} if m["extras"] == {} else {}
            twin_token = Token(twin["start"], twin["end"], pos=None if twin["pos"] is None else make_pos(twin["pos"], True), lemma=twin["lemma"],
                               deprel=twin["deprel"], sub_index=twin["sub"], text_replacement=twin["repl"], extras=TokenExtras(twin["extras"]),
                               **heads_kw(twin["head"]))
            same = visible(twin) == visible(m)
            ctx.label("equal twin" if same else "different twin")
            check_eq(real == twin_token, same, "equality of tokens {} {} (change {})".format(real, twin_token, what))
            check_eq(twin_token != real, not same, "inequality of tokens {} {} (change {})".format(real, twin_token, what))
            w.tokens.append((twin_token, twin))
        w.verify()
    ctx.nontrivial(n_derived >= 2 and n_mutated >= 1)


def visible(m):
    return (m["start"], m["end"], m["sub"], m["repl"], content(m["pos"]) if m["pos"] is not None else None, m["lemma"], m["deprel"],
            m["head"][1] if m["head"] is not None else None, m["extras"])


# ---------------------------------------------------------------- equality of documents and of their tokens

@st.composite
def variants(draw, big=True):
    spec = draw(gen.documents(n_sents=(1, 3, 6), max_tokens=(4, 10), pool_size=4, big=big))
    return {"spec": spec, "kind": draw(st.integers(0, 14)), "i": draw(st.integers(0, 999)), "notation": draw(st.sampled_from(["sent", "doc", "both"]))}


def run_variants(case, ctx):
    spec = case["spec"]
    words = [w for s in spec["sents"] for w in gen.words_of(s)]
    if case["kind"] in (11, 14):
        for w in words:
            w["h"] = None
    a = docs.build(spec, case["notation"])
    check(a == docs.build(deepcopy(spec), case["notation"]) and not (a != docs.build(deepcopy(spec), case["notation"])), "identical documents differ")
    if case["notation"] != "sent":
        check(a == docs.build(deepcopy(spec), "sent"), "head notation changes equality of documents")
    check(not (a == "x") and a != None, "document equals to foreign object")  # noqa
    if not words:
        return
    ctx.nontrivial()
    other = deepcopy(spec)
    sents = other["sents"]
    i = case["i"] % len(words)
    si, k = next((si, i - base) for si, base in _bases(spec) if base <= i < base + len(gen.words_of(spec["sents"][si])))
    sent = sents[si]
    w = gen.words_of(sent)[k]
    tok = next(t for t in sent["toks"] if any(x is w for x in t["words"]))
    kind = case["kind"]
    changed = True
    if kind == 0:
        w["l"] = (w["l"] or "") + "x"
    elif kind == 1 and w["p"]:
        w["u"] = (w["u"] or "") + "x"
    elif kind == 2 and w["p"]:
        w["x"] = (w["x"] or "") + "x"
    elif kind == 3 and w["p"]:
        w["f"] = dict(w["f"], Zzz="x")
    elif kind == 4 and w["p"] and w["f"]:
        f = dict(w["f"])
        f.pop(sorted(f)[0])
        w["f"] = f
    elif kind == 5 and sent["tree"]:
        w["d"] = (w["d"] or "") + "x"
    elif kind == 6 and sent["tree"] and len(gen.words_of(sent)) > 1:
        ws = gen.words_of(sent)
        old = w["h"]
        w["h"] = old % len(ws) + 1 if old % len(ws) + 1 != old else 0
        changed = w["h"] != old
    elif kind == 7:
        for x in gen.words_of(sent):
            changed = x["h"] is not None
            x["h"] = None
    elif kind == 8 and tok["mwt"]:
        w["t"] = w["t"] + "x"
    elif kind == 9:
        tok["sp"] = not tok["sp"]
        last = sents[-1]["toks"][-1] is tok
        changed = True  # one more or one less character in the text
        ctx.label("trailing space", last)
    elif kind == 10 and not tok["mwt"]:
        tok["form"] = tok["form"] + "x"
        w["t"] = tok["form"]
    elif kind == 11 and len(sents) > 1:
        sents[0]["toks"] += sents[1]["toks"]
        del sents[1]
    elif kind == 14 and len(sents) > 1 and len(sents[0]["toks"]) > 1:
        sents[1]["toks"].insert(0, sents[0]["toks"].pop())
    elif kind == 12:
        del sents[-1]
    elif kind == 13 and not w["p"]:
        w["p"], w["u"], w["x"], w["f"] = True, None, None, {}
    else:
        changed = None
    if changed is None:
        return
    ctx.label("changed:%d" % kind if changed else "same")
    b = docs.build(other, case["notation"])
    check_eq(a == b, not changed, "equality of documents after change {}".format(kind))
    check_eq(a != b, changed, "inequality of documents after change {}".format(kind))
    bounds = list(a.sentences_boundaries)[:4] + list(b.sentences_boundaries)[:4]
    for x in bounds:
        for y in bounds + [Sentence(x.start, x.end + 1), Sentence(x.start, x.end)]:
            check_eq(x == y, (x.start, x.end) == (y.start, y.end), "equality of sentence boundaries")
            check_eq(x != y, (x.start, x.end) != (y.start, y.end), "inequality of sentence boundaries")
    if kind not in (9, 10, 11, 12, 14) and changed:
        # only tokens that were changed differ
        for j, (x, y, wx, wy) in enumerate(zip(a.tokens, b.tokens, words, [v for s in sents for v in gen.words_of(s)])):
            check_eq(x == y, wx == wy, "equality of token %d" % j)


def _bases(spec):
    base, out = 0, []
    for si, s in enumerate(spec["sents"]):
        out.append((si, base))
        base += len(gen.words_of(s))
    return out


# ---------------------------------------------------------------- from_document

@st.composite
def replacements(draw, big=True):
    spec = draw(gen.documents(n_sents=(1, 3, 6), max_tokens=(4, 12), pool_size=3, big=big))
    return {"spec": spec, "change": draw(st.sampled_from(["none", "none", "none", "drop", "extend", "shift", "dup", "append", "renumber"])),
            "i": draw(st.integers(-20, 999)), "perm": draw(st.integers(0, 5)), "derive": draw(st.lists(st.integers(0, 4), min_size=1, max_size=6)),
            "view": draw(st.booleans())}


def run_replacement(case, ctx):
    spec = case["spec"]
    doc = docs.build(spec)
    before = docs.view(doc)
    text, rows, bounds = docs.layout(spec)
    if not rows:
        check(Document.from_document(doc, []) == doc, "document without tokens derived from itself")
        return
    ctx.nontrivial(len(rows) > 1)
    source = list(doc.tokens) if case["view"] else [t for s in doc.sentences for t in s.tokens]
    expected = [v for s in docs.expected_view(spec)["sents"] for v in s]
    tokens = []
    for j, t in enumerate(source):
        e = expected[j]
        d = case["derive"][j % len(case["derive"])]
        if d == 1:
            t = t.with_morphology(t, Pos("N%d" % j), "lemma%d" % j)
            e["pos"], e["has_pos"], e["lemma"] = ("N%d" % j, None, {}), True, "lemma%d" % j
        elif d == 2:
            t = t.with_syntax(t, "rel", head_sentence_index=-1)
            e["head"], e["deprel"] = 0, "rel"
        elif d == 3:
            t = t.update_extras(t, {"k": [j]})
            e["extras"] = {"k": [j]}
        elif d == 4:
            t = t.with_morphology(t)
            e["pos"], e["has_pos"], e["lemma"] = (None, None, {}), False, None
        tokens.append(t)
    i = case["i"] % len(tokens)
    t = tokens[i]
    change = case["change"]
    ok = change == "none"

    def moved(start, end, sub, repl):
        return Token(start, end, pos=t.pos, lemma=t.lemma, sub_index=sub, text_replacement=repl)

    if change == "drop":
        del tokens[i]
    elif change == "extend":
        tokens[i] = moved(t.start, t.end + 1, t.sub_index, t.text_replacement)
    elif change == "shift":
        tokens[i] = moved(t.start + 1, t.end + 1, t.sub_index, t.text_replacement)
    elif change == "dup":
        tokens.insert(i, t)
    elif change == "append":
        tokens.append(moved(len(text) + 1, len(text) + 2, 0, None))
    elif change == "renumber":
        tokens[i] = moved(t.start, t.end, t.sub_index + 1, "w")
    ctx.label(change)
    if case["perm"]:
        random.Random(case["perm"]).shuffle(tokens)
    given = list(tokens)
    try:
        new = Document.from_document(doc, tokens)
    except ValueError:
        check(not ok, "valid replacement of tokens is rejected")
        new = None
    else:
        check(ok, "tokens at other positions accepted", change)
    check(len(given) == len(tokens) and all(x is y for x, y in zip(given, tokens)), "list of tokens was modified")
    if new is not None:
        check_eq(new.text, doc.text, "text")
        check_eq([(s.start, s.end) for s in new.sentences_boundaries], bounds, "sentences")
        flat = [v for s in docs.view(new)["sents"] for v in s]
        check_eq(flat, expected, "tokens of the new document")
        del tokens[:]
        check_eq([v for s in docs.view(new)["sents"] for v in s], expected, "tokens of the new document after the given list was emptied")
    check_eq(docs.view(doc), before, "original document")


CHECKS = [
    Check("tags", tag_lists, run_tags, quick=4000, thorough=100000, chunk=250),
    Check("derive", histories, run_history, quick=4000, thorough=100000, chunk=100),
    Check("documents", variants, run_variants, quick=3000, thorough=80000, chunk=100),
    Check("documents, large", lambda: variants("always"), run_variants, quick=200, thorough=5000, chunk=8),
    Check("from_document", replacements, run_replacement, quick=3000, thorough=80000, chunk=100),
    Check("from_document, large", lambda: replacements("always"), run_replacement, quick=300, thorough=8000, chunk=8),
]
