"""Generates CoNLL-U text from document specs, independently of the writer under test."""
from hypothesis import strategies as st

from lib import gen

UNRELATED = [None, None, "Gloss=x", "Gloss", "x=y=z", "SpacesAfter=\\s", "CorrectSpaceAfter=No", "SpacesBefore=\\n", "spaceafter=No", "a=SpaceAfter",
             "X|Y=1", "=", "LId=a-1|Gloss=b", "Ref=1|Note", "NoSpaceAfter=Yes", "Translit=SpaceAfter=No"]
NO_SPACE = ["SpaceAfter=No", "SpaceAfter=No", "Gloss=x|SpaceAfter=No", "SpaceAfter=No|X=1", "X|SpaceAfter=No|Y=2", "SpaceAfter=No|CorrectSpaceAfter=Yes",
            "|".join("K%d=%d" % (i, i) for i in range(40)) + "|SpaceAfter=No|Z=1"]
COMMENTS = ["#", "# text = abc", "# sent_id = 1", "#\t1\t2", "# newdoc id = 5", "#1\ta\t_", "# \u4e2d ", "##"]
DEPS = ["_", "_", "0:root", "1:nsubj|2:conj", "4.1:dep", "SpaceAfter=No"]
EMPTY_MISC = ["_", "SpaceAfter=No", "CopyOf=1"]


@st.composite
def decorations(draw, n_sents=None):
    return {"comments": draw(st.lists(st.lists(st.integers(0, len(COMMENTS) - 1), max_size=3), max_size=4)),
            "empty": draw(st.lists(st.tuples(st.integers(0, 200), st.integers(0, 2)), max_size=6)) if draw(st.booleans()) else [],
            "misc": draw(st.lists(st.integers(0, 255), min_size=1, max_size=8)),
            "eol": draw(st.sampled_from(["\n", "\n", "\r\n"]))}


def _v(x):
    return "_" if x is None else x


def feats_str(f):
    return "|".join(sorted("{}={}".format(k, v) for k, v in f.items())) if f else "_"


def word_columns(index, w, deps="_", misc="_"):
    return [str(index), w["t"], _v(w["l"]), _v(w["u"]), _v(w["x"]), feats_str(w["f"]), "_" if w["h"] is None else str(w["h"]), _v(w["d"]), deps, misc]


def lines(spec, deco):
    """-> list of sentences, each a list of (kind, columns or comment); kind: comment, word, range, empty"""
    result = []
    misc = deco["misc"]
    m = 0
    empties = {}
    total_slots = sum(len(gen.words_of(s)) + 1 for s in spec["sents"])
    for pos, n in deco["empty"]:
        if total_slots:
            empties[pos % total_slots] = empties.get(pos % total_slots, 0) + n + 1
    slot = 0
    for si, s in enumerate(spec["sents"]):
        sent = []
        comments = deco["comments"]
        if comments:
            sent += [("comment", COMMENTS[c]) for c in comments[si % len(comments)]]

        def empty_nodes(after):
            nonlocal slot
            for j in range(empties.get(slot, 0)):
                code = misc[(slot + j) % len(misc)]
                sent.append(("empty", ["{}.{}".format(after, j + 1), ["e", "_", "a b", "="][code % 4], "e", "X" if code % 2 else "_", "_",
                                       "A=B" if code % 3 else "_", "_", "_", DEPS[code % len(DEPS)], EMPTY_MISC[code % len(EMPTY_MISC)]]))
            slot += 1

        empty_nodes(0)
        index = 0
        for t in s["toks"]:
            code = misc[m % len(misc)] + m
            m += 1
            surface_misc = _v(UNRELATED[code % len(UNRELATED)]) if t["sp"] else NO_SPACE[code % len(NO_SPACE)]
            deps = DEPS[code % len(DEPS)]
            if t["mwt"]:
                sent.append(("range", ["{}-{}".format(index + 1, index + len(t["words"])), t["form"]] + ["_"] * 3
                             + ["Typo=Yes" if code % 5 == 0 else "_"] + ["_"] * 3 + [surface_misc]))
                for k, w in enumerate(t["words"]):
                    index += 1
                    inner = ["_", "_", "Gloss=y", "SpaceAfter=No", "Q"][(code + k) % 5]
                    sent.append(("word", word_columns(index, w, deps, inner)))
                    empty_nodes(index)
            else:
                index += 1
                sent.append(("word", word_columns(index, t["words"][0], deps, surface_misc)))
                empty_nodes(index)
        result.append(sent)
    return result


def render_sentences(sents, eol="\n"):
    return ["".join((line if kind == "comment" else "\t".join(line)) + eol for kind, line in sent) + eol for sent in sents]


def render(spec, deco):
    return "".join(render_sentences(lines(spec, deco), deco["eol"]))
