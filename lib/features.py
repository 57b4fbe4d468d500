"""Helpers for feature and label extraction: data sets, assembling of extractors."""
from itertools import chain

import bpemb


class FakeBPEmb(object):
    """stand-in for the byte-pair model (whose files would be downloaded): cuts words into pieces of `vs` characters"""

    def __init__(self, lang=None, vs=None, **kwargs):
        self.size = vs

    def encode(self, texts):
        if not isinstance(texts, str):
            return [self.encode(t) for t in texts]
        return bpe(texts, self.size)


def bpe(text, size):
    """'▁' marks the beginning of the word (and stands for spaces) and may be a piece of its own"""
    marked = "\u2581" + text.replace(" ", "\u2581")
    if size == 1:
        return list(marked)
    return [marked[i:i + size] for i in range(0, len(marked), size)]


bpemb.BPEmb = FakeBPEmb

from babylondigger.datamodel import Document  # noqa
from babylondigger.features.provider import FeatureExtractorBuilderProvider


class DataSet(object):
    """re-iterable data set of documents, as used in experiments"""

    def __init__(self, documents):
        self.documents = list(documents)

    def __iter__(self):
        return iter(list(self.documents))


def assemble(providers, dataset, first=None):
    """-> feature extractor, label extractor, interpreter, initializer; `first`: documents of another data set for which the same builders were used before"""
    builders = FeatureExtractorBuilderProvider(list(providers))
    if first:
        earlier = DataSet(first)
        place = id(earlier)
        builders.build(earlier)
        del earlier
        made = [DataSet(dataset.documents) for _ in range(50)]
        dataset = next((d for d in made if id(d) == place), dataset)  # a new one where the other one was in memory, if possible
    return builders.build(dataset)


def sentences(documents):
    return [s for d in documents for s in d.sentences]


def plain(value):
    """nested lists of plain values (whatever kind of array was returned)"""
    if hasattr(value, "tolist"):
        value = value.tolist()
    if isinstance(value, (list, tuple)):
        return [plain(v) for v in value]
    return value


def rebuilt(document, tokens_of_sentences):
    """document with the interpreted tokens"""
    return Document.from_document(document, list(chain.from_iterable(tokens_of_sentences)))


def no_pos(view):
    """view without tags"""
    return {"text": view["text"], "sents": [[{k: v for k, v in t.items() if k not in ("pos", "has_pos")} for t in s] for s in view["sents"]]}


def no_lemma(view):
    return {"text": view["text"], "sents": [[{k: v for k, v in t.items() if k != "lemma"} for t in s] for s in view["sents"]]}


def plain_dict(values):
    return {k: plain(v) for k, v in values.items()}
