"""Reference model of loading CoNLL-U for scoring, written from the format description."""
import re

CANON = re.compile(r"^(0|[1-9][0-9]{0,12})$", re.ASCII)
EMPTY_ID = re.compile(r"^[0-9]+\.[0-9]+$", re.ASCII)


class Rejected(Exception):
    pass


def lines_of(text):
    parts = text.split("\n")
    if parts[-1] == "":
        parts.pop()
    return [p.rstrip("\r") for p in parts]


def _number(s, state, what):
    if CANON.match(s):
        return int(s)
    try:
        v = int(s)
    except ValueError:
        raise Rejected("cannot parse " + what)
    state["dubious"] = True
    if v < 0:
        raise Rejected("negative " + what)
    return v


def load(text):
    """-> ("ok" | "error" | "dubious", representation | reason)

    dubious: what the text means is not defined by the format (e.g. numbers like '+1', wrong numbers inside a multiword token)"""
    state = {"dubious": False}
    try:
        data = _load(text, state)
    except Rejected as e:
        return ("dubious" if state["dubious"] else "error"), str(e)
    return ("dubious" if state["dubious"] else "ok"), data


def _load(text, state):
    lines = lines_of(text)
    n, i = len(lines), 0
    chars, tokens, words, sentences = "", [], [], []
    while True:
        while i < n and lines[i].startswith("#"):
            i += 1
        if i >= n:
            break
        first, start_char = len(words), len(chars)
        # one sentence
        while True:
            if i >= n:
                raise Rejected("no empty line at the end")
            line = lines[i]
            i += 1
            if line == "":
                break
            cols = line.split("\t")
            if len(cols) != 10:
                raise Rejected("not 10 columns")
            if "." in cols[0]:
                if not EMPTY_ID.match(cols[0]):
                    state["dubious"] = True
                continue
            form = cols[1].replace(" ", "")
            if form == "":
                raise Rejected("empty form")
            span = (len(chars), len(chars) + len(form))
            chars += form
            tokens.append(span)
            if "-" in cols[0]:
                parts = cols[0].split("-")
                if len(parts) != 2:
                    if parts.count("") == 0 or True:
                        # e.g. 1--2: readings differ
                        state["dubious"] = True
                    raise Rejected("range")
                a, b = _number(parts[0], state, "range"), _number(parts[1], state, "range")
                if a != len(words) - first + 1 or b < a:
                    state["dubious"] = True
                for k in range(min(b - a + 1, n + 1)):
                    while True:
                        if i >= n:
                            raise Rejected("end of input inside of a multiword token")
                        wcols = lines[i].split("\t")
                        i += 1
                        if len(wcols) != 10:
                            raise Rejected("not 10 columns")
                        if "." not in wcols[0]:
                            break
                        if not EMPTY_ID.match(wcols[0]):
                            state["dubious"] = True
                    if wcols[0] != str(len(words) - first + 1) or wcols[1].replace(" ", "") == "":
                        state["dubious"] = True
                    head = _number(wcols[6], state, "head")
                    words.append({"span": span, "cols": wcols, "mwt": True, "head": head})
            else:
                number = _number(cols[0], state, "id")
                head = _number(cols[6], state, "head")
                if number != len(words) - first + 1:
                    raise Rejected("wrong number")
                words.append({"span": span, "cols": cols, "mwt": False, "head": head})
        count = len(words) - first
        heads = [w["head"] for w in words[first:]]
        if any(h > count for h in heads):
            raise Rejected("head outside of the sentence")
        if heads.count(0) != 1:
            raise Rejected("number of roots")
        ok = [False] * (count + 1)
        ok[0] = True
        for k in range(1, count + 1):
            path, j = [], k
            while not ok[j]:
                path.append(j)
                if len(path) > count:
                    raise Rejected("cycle")
                j = heads[j - 1]
            for j in path:
                ok[j] = True
        for w in words[first:]:
            w["parent"] = None if w["head"] == 0 else first + w["head"] - 1
        sentences.append((start_char, len(chars)))
    return {"chars": chars, "tokens": tokens, "words": words, "sentences": sentences}
