From d8c669c9a1814224b060ad65f4d1b7371b89700b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:29 +0000
Subject: [PATCH 01/25] fix: do not repeat a sentence-final multiword token in
 the next sentence

The CoNLL-U writer stayed in the multiword state after the end of a sentence,
so the multiword token closing a sentence was written again (and the following
words were numbered after it) when another sentence followed.
---
 babylondigger/evaluation/conllu_io.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/babylondigger/evaluation/conllu_io.py b/babylondigger/evaluation/conllu_io.py
index fd99f75..6121de8 100644
--- a/babylondigger/evaluation/conllu_io.py
+++ b/babylondigger/evaluation/conllu_io.py
@@ -196,7 +196,7 @@ class _AbstractWriterState(object):
     def write_token(self, token: NavigableToken) -> '_AbstractWriterState':
         pass
 
-    def write_end_of_sentence(self):
+    def write_end_of_sentence(self) -> '_AbstractWriterState':
         pass
 
 
@@ -218,10 +218,11 @@ class _RegularTokenWriterState(_AbstractWriterState):
         self.write_to_file(self._to_conll_str(self.__index, token, write_space_after))
         self.__index += 1
 
-    def write_end_of_sentence(self):
+    def write_end_of_sentence(self) -> _AbstractWriterState:
         super().write_end_of_sentence()
         self.__file.write("\n")
         self.__index = 0
+        return self
 
     def write_to_file(self, line):
         self.__file.write(line)
@@ -247,7 +248,7 @@ class _MultiwordTokenWriterState(_AbstractWriterState):
         self._write_multiword_token()
         return self.__parent_state.write_token(token)
 
-    def write_end_of_sentence(self):
+    def write_end_of_sentence(self) -> _AbstractWriterState:
         self._write_multiword_token()
         return self.__parent_state.write_end_of_sentence()
 
@@ -304,7 +305,7 @@ class CoNLLUWriter(object):
         for sentence in doc.sentences:
             for token in sentence:
                 state = state.write_token(token)
-            state.write_end_of_sentence()
+            state = state.write_end_of_sentence()
 
 
 def to_conll(column_extractors, index: int, token: NavigableToken, write_space_after: bool = True, fake_heads: bool = True) -> List[str]:
-- 
2.43.0


From 218718b73b8eabe58919a3c3d39cb981af1b0c06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:29 +0000
Subject: [PATCH 02/25] fix: CoNLL-U writer crashed when the FEATS column is
 not selected

---
 babylondigger/evaluation/conllu_io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/babylondigger/evaluation/conllu_io.py b/babylondigger/evaluation/conllu_io.py
index 6121de8..e207d1e 100644
--- a/babylondigger/evaluation/conllu_io.py
+++ b/babylondigger/evaluation/conllu_io.py
@@ -313,7 +313,7 @@ def to_conll(column_extractors, index: int, token: NavigableToken, write_space_a
         return s if s is not None else "_"
 
     def __feats_to_string(feats: Dict) -> str:
-        if len(feats) == 0:
+        if not feats:
             return "_"
         return "|".join(sorted("{}={}".format(*item) for item in feats.items()))
 
-- 
2.43.0


From 47b697cf8522cae447abac312c5ed3fd990a3628 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:29 +0000
Subject: [PATCH 03/25] fix: CoNLL-U reader crashed on MISC entries which are
 not key=value pairs

---
 babylondigger/evaluation/conllu_io.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/babylondigger/evaluation/conllu_io.py b/babylondigger/evaluation/conllu_io.py
index e207d1e..0edbdce 100644
--- a/babylondigger/evaluation/conllu_io.py
+++ b/babylondigger/evaluation/conllu_io.py
@@ -171,7 +171,7 @@ def _line_parser(columns: Set[int]):
             lemma=lemma_extractor(token_repr),
             head=head_extractor(token_repr),
             deprel=deprel_extractor(token_repr),
-            space_after=_parse_to_dict(token_repr[MISC]).get("SpaceAfter") is None)
+            space_after="SpaceAfter" not in _parse_misc_keys(token_repr[MISC]))
     return _parse_line
 
 
@@ -188,6 +188,13 @@ def _parse_to_dict(feats: Optional[str]) -> Dict[str, str]:
     return {entry[0]: entry[1] for entry in map(lambda s: s.split("="), feats.split("|"))}
 
 
+def _parse_misc_keys(misc: Optional[str]) -> Set[str]:
+    # unlike FEATS, MISC entries are not required to be key=value pairs
+    if misc is None:
+        return set()
+    return {entry.split("=")[0] for entry in misc.split("|")}
+
+
 ########## writer ##########
 
 
-- 
2.43.0


From d1f39fb2bda5300445e32e4cefaf44f382ed8cf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:29 +0000
Subject: [PATCH 04/25] fix: CoNLL-U reader took an empty node inside of a
 multiword token for a word

---
 babylondigger/evaluation/conllu_io.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/babylondigger/evaluation/conllu_io.py b/babylondigger/evaluation/conllu_io.py
index 0edbdce..de5442d 100644
--- a/babylondigger/evaluation/conllu_io.py
+++ b/babylondigger/evaluation/conllu_io.py
@@ -86,6 +86,8 @@ class _MultiWordReaderState(_AbstractReaderState):
         self._token_end = token_end
 
     def _process_token(self, parsed_token: 'InternalToken') -> _AbstractReaderState:
+        if '.' in parsed_token.id:  # empty token
+            return self
         self._tokens.append(Token(start=self._token_start, end=self._token_end,
                                   pos=parsed_token.pos, lemma=parsed_token.lemma,
                                   head_sentence_index=self._compute_head(parsed_token.head), deprel=parsed_token.deprel,
-- 
2.43.0


From 16951d90373731079b2e87584d1bcf306561b651 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:29 +0000
Subject: [PATCH 05/25] fix: evaluator took an empty node inside of a multiword
 token for a word

---
 babylondigger/evaluation/conll17_ud_eval.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/babylondigger/evaluation/conll17_ud_eval.py b/babylondigger/evaluation/conll17_ud_eval.py
index 3f16d69..7abd70d 100644
--- a/babylondigger/evaluation/conll17_ud_eval.py
+++ b/babylondigger/evaluation/conll17_ud_eval.py
@@ -212,10 +212,14 @@ def load_conllu(file):
                 raise UDError("Cannot parse multi-word token ID '{}'".format(columns[ID]))
 
             for _ in range(start, end + 1):
-                word_line = file.readline().rstrip("\r\n")
-                word_columns = word_line.split("\t")
-                if len(word_columns) != 10:
-                    raise UDError("The CoNLL-U line does not contain 10 tab-separated columns: '{}'".format(word_line))
+                while True:
+                    word_line = file.readline().rstrip("\r\n")
+                    word_columns = word_line.split("\t")
+                    if len(word_columns) != 10:
+                        raise UDError("The CoNLL-U line does not contain 10 tab-separated columns: '{}'".format(word_line))
+                    # Skip empty nodes
+                    if "." not in word_columns[ID]:
+                        break
                 ud.words.append(UDWord(ud.tokens[-1], word_columns, is_multiword=True))
         # Basic tokens/words
         else:
-- 
2.43.0


From 43fcec627b55279dd20e812e75ac81f176b6bcce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:07 +0000
Subject: [PATCH 06/25] fix: evaluator did not check HEAD of words inside of a
 multiword token

A HEAD that is not a number raised ValueError instead of UDError, a negative one
was resolved to a word of another sentence (or raised IndexError).
---
 babylondigger/evaluation/conll17_ud_eval.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/babylondigger/evaluation/conll17_ud_eval.py b/babylondigger/evaluation/conll17_ud_eval.py
index 7abd70d..f54e0c3 100644
--- a/babylondigger/evaluation/conll17_ud_eval.py
+++ b/babylondigger/evaluation/conll17_ud_eval.py
@@ -220,6 +220,12 @@ def load_conllu(file):
                     # Skip empty nodes
                     if "." not in word_columns[ID]:
                         break
+                try:
+                    head_id = int(word_columns[HEAD])
+                except:
+                    raise UDError("Cannot parse HEAD '{}'".format(word_columns[HEAD]))
+                if head_id < 0:
+                    raise UDError("HEAD cannot be negative")
                 ud.words.append(UDWord(ud.tokens[-1], word_columns, is_multiword=True))
         # Basic tokens/words
         else:
-- 
2.43.0


From 43debd91c491eb34cfd0afab1491527a04d6c386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:42 +0000
Subject: [PATCH 07/25] fix: reject a document which starts in the middle of a
 multiword token

---
 babylondigger/datamodel.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/babylondigger/datamodel.py b/babylondigger/datamodel.py
index 75a6554..3e1ec40 100644
--- a/babylondigger/datamodel.py
+++ b/babylondigger/datamodel.py
@@ -459,6 +459,8 @@ class Document(_WordList):
         if not non_intersects:
             raise ValueError('sentences should not intersect ({}, {})'
                              .format(sentences[index], sentences[index + 1]))
+        if self._tokens[0].sub_index != 0:
+            raise ValueError('multiword token is skipped (before {})'.format(self._tokens[0]))
         self.__sentences = tuple(sentences)
 
         if validate_syntax:
-- 
2.43.0


From c4e14080d1ee36054e91a830d72f509d675c0c4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:42 +0000
Subject: [PATCH 08/25] fix: raise ValueError (not IndexError) for tokens
 without any sentence

---
 babylondigger/datamodel.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/babylondigger/datamodel.py b/babylondigger/datamodel.py
index 3e1ec40..514ac75 100644
--- a/babylondigger/datamodel.py
+++ b/babylondigger/datamodel.py
@@ -432,6 +432,8 @@ class Document(_WordList):
             if sentences is None:
                 sentences = [Sentence(0, len(tokens))]
             sentences = sorted(sentences, key=attrgetter('start', 'end'))
+            if not sentences:
+                raise ValueError('there are some tokens outside of the sentence (tokens: {})'.format(tokens))
 
         _WordList.__init__(self, text, tokens, lambda token: token._head_document_index, sorted_sentences=sentences)
 
-- 
2.43.0


From 0d1a7e674407caa84b623ba8455910557c241a73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:42 +0000
Subject: [PATCH 09/25] fix: do not take a head outside of the sentence for the
 root

The index of the last token of the previous sentence became -1 (that is root) in the
sentence view, so such a tree passed the syntax validation. The same holds for a
sentence index which becomes -1 in the document view, and for a token which is root
in one view only.
---
 babylondigger/datamodel.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/babylondigger/datamodel.py b/babylondigger/datamodel.py
index 514ac75..22fa178 100644
--- a/babylondigger/datamodel.py
+++ b/babylondigger/datamodel.py
@@ -229,7 +229,9 @@ class Token(object):
     def fill_heads(cls, token: 'Token', sentence_start: int):
         if token.__head_sentence_index is None and token.__head_document_index is None:
             return token
-        if token.__head_sentence_index == -1 or token.__head_document_index == -1:
+        if token.is_root:
+            if token.__head_sentence_index not in (None, -1) or token.__head_document_index not in (None, -1):
+                raise ValueError('Broken token {}. Mismatch syntactic head (one of views is root)'.format(token))
             return token.with_syntax(token, token.__deprel, head_document_index=-1, head_sentence_index=-1)
         head_document_index = token.__head_document_index
         head_sentence_index = token.__head_sentence_index
@@ -237,7 +239,9 @@ class Token(object):
             head_document_index = token.__head_sentence_index + sentence_start
         elif token.__head_sentence_index is None:
             head_sentence_index = token.__head_document_index - sentence_start
-        elif head_document_index != head_sentence_index + sentence_start:
+        if head_document_index == -1 or head_sentence_index == -1:  # -1 is reserved for root
+            raise ValueError('Broken token {}. Head refers outside of the sentence'.format(token))
+        if head_document_index != head_sentence_index + sentence_start:
             raise ValueError('Broken token {}. Mismatch syntactic head (document view: {}, sentence view: {}, sentence start: {})'
                              .format(token, head_document_index, head_sentence_index, sentence_start))
         return token.with_syntax(token, token.__deprel, head_document_index=head_document_index, head_sentence_index=head_sentence_index)
-- 
2.43.0


From 5631c86c8950dc5a8e38980f0fa0a217716c8477 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:42 +0000
Subject: [PATCH 10/25] fix: tokens with different heads (sentence view) were
 equal

---
 babylondigger/datamodel.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/babylondigger/datamodel.py b/babylondigger/datamodel.py
index 22fa178..ca6f894 100644
--- a/babylondigger/datamodel.py
+++ b/babylondigger/datamodel.py
@@ -178,12 +178,19 @@ class Token(object):
         if isinstance(other, Token):
             return self.__start == other.__start and self.__end == other.__end and \
                    self.pos == other.pos and self.lemma == other.lemma and \
-                   self._head_document_index == other._head_document_index and \
-                   self._head_sentence_index == self._head_sentence_index and self.deprel == other.deprel and \
+                   self.__same_head(other) and self.deprel == other.deprel and \
                    self.sub_index == other.sub_index and self.text_replacement == other.text_replacement and \
                    self.extras == other.extras
         return NotImplemented
 
+    def __same_head(self, other: 'Token') -> bool:
+        if self.__head_document_index != other.__head_document_index:
+            return False
+        if self.__head_document_index is not None and \
+                (self.__head_sentence_index is None or other.__head_sentence_index is None):
+            return True  # document index is enough to identify head
+        return self.__head_sentence_index == other.__head_sentence_index
+
     def __repr__(self):
         if self.is_multiword:
             return "{{'start': {}, 'end': {}, 'sub_index': {}, 'text': {} 'pos': {}, 'lemma': {}, 'head_doc': {}, 'head_sent': {}, 'deprel': {}}}".format(
-- 
2.43.0


From e9deca3a002f99be6c4973b5ec9cf84ddaf90c23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:42 +0000
Subject: [PATCH 11/25] fix: comparison of token extras with another type
 raised TypeError

---
 babylondigger/datamodel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/babylondigger/datamodel.py b/babylondigger/datamodel.py
index ca6f894..4d49819 100644
--- a/babylondigger/datamodel.py
+++ b/babylondigger/datamodel.py
@@ -69,7 +69,7 @@ class TokenExtras(object):
     def __eq__(self, other):
         if isinstance(other, TokenExtras):
             return self.__extras == other.__extras
-        raise NotImplemented
+        return NotImplemented
 
     def as_dict(self):
         return deepcopy(self.__extras)
-- 
2.43.0


From 6f805cb549e3dff867e11f883bb8f24f2c5df3f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:42 +0000
Subject: [PATCH 12/25] fix: ordering of Pos raised TypeError when one of tags
 is not specified

---
 babylondigger/datamodel.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/babylondigger/datamodel.py b/babylondigger/datamodel.py
index 4d49819..21f6f22 100644
--- a/babylondigger/datamodel.py
+++ b/babylondigger/datamodel.py
@@ -41,7 +41,7 @@ class Pos(object):
     def __lt__(self, other):
         if not isinstance(other, Pos):
             return NotImplemented
-        return self.__tuple_view() < other.__tuple_view()
+        return self.__sort_key() < other.__sort_key()
 
     def __hash__(self):
         return hash(self.__tuple_view())
@@ -49,6 +49,10 @@ class Pos(object):
     def __tuple_view(self):
         return self.__upos, self.__xpos, tuple(sorted(self.__feats.items()))
 
+    def __sort_key(self):
+        # None is less than any tag
+        return tuple((part is not None, part) for part in self.__tuple_view())
+
 
 class TokenExtras(object):
     def __init__(self, extras: dict):
-- 
2.43.0


From b1d91db422c1ed6ec003c85892627e0570b6387d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:42 +0000
Subject: [PATCH 13/25] fix: pos_XF labels builder raised TypeError when some
 XPOS tags are not specified

---
 babylondigger/features/extractors.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/babylondigger/features/extractors.py b/babylondigger/features/extractors.py
index 873af00..056dec3 100644
--- a/babylondigger/features/extractors.py
+++ b/babylondigger/features/extractors.py
@@ -615,11 +615,18 @@ def _id2obj(labels_counts: Dict[__T, int], threshold=0) -> List[__T]:
         objects = filter(lambda item: item[1] > threshold, objects)
     objects = map(lambda item: item[0], objects)
     objects = filter(lambda obj: obj != most_common, objects)
-    id2obj = sorted(objects, key=lambda x: (x is not None, x))
+    id2obj = sorted(objects, key=_sort_key)
     id2obj.insert(0, most_common)
     return id2obj
 
 
+def _sort_key(obj):
+    # None is less than any other value (including None inside of tuples)
+    if isinstance(obj, tuple):
+        return True, tuple(map(_sort_key, obj))
+    return obj is not None, obj
+
+
 def _obj2id(id2obj: List[__T]) -> Dict[__T, int]:
     return {obj: i for i, obj in enumerate(id2obj)}
 
-- 
2.43.0


From 353f1f403ec5c7d2a7b65f601f7138a03689c1fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:42 +0000
Subject: [PATCH 14/25] fix: vocabulary of trained embeddings consisted of
 characters instead of words

Moreover lowercase option was taken into account in the extractor but not in the vocabulary.
---
 babylondigger/features/extractors.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/babylondigger/features/extractors.py b/babylondigger/features/extractors.py
index 056dec3..cafb894 100644
--- a/babylondigger/features/extractors.py
+++ b/babylondigger/features/extractors.py
@@ -122,7 +122,7 @@ class TrainableEmbeddingsExtractorBuilder(builder.FeatureExtractorBuilder[Naviga
         self.__lowercase = lowercase
 
     def build(self, dataset: Iterable[Document]):
-        tokens = chain.from_iterable(_tokens(dataset, lambda token: token.text))
+        tokens = _tokens(dataset, lambda token: token.text.lower() if self.__lowercase else token.text)
         counter = Counter(tokens)
         filtered = map(lambda item: item[0], filter(lambda item: item[1] >= self.__threshold, counter.most_common()))
         word2id = {wr: index for index, wr in enumerate(sorted(filtered), 2)}
-- 
2.43.0


From 3d9c5df9800943114a87caa3735ddbeaf8a8d8fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:42 +0000
Subject: [PATCH 15/25] fix: whole-word lemma rules were applicable to words
 with the same ending

---
 babylondigger/lemmas/transformation_rules.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/babylondigger/lemmas/transformation_rules.py b/babylondigger/lemmas/transformation_rules.py
index 0b2a905..dbaed29 100644
--- a/babylondigger/lemmas/transformation_rules.py
+++ b/babylondigger/lemmas/transformation_rules.py
@@ -128,8 +128,8 @@ class LemmaTransformationTrie(object):
             if child is None:
                 break
             current = child
-
-        _extend(result, current.__exceptions)
+        else:  # exceptions are applicable to the whole word only
+            _extend(result, current.__exceptions)
         return result
 
     @classmethod
-- 
2.43.0


From af241a4f8809124fae31b27ecbe65e1801fe3e95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:02 +0000
Subject: [PATCH 16/25] fix: scores without aligned accuracy (Tokens,
 Sentences, Words) could not be averaged

---
 babylondigger/evaluation/evaluation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/babylondigger/evaluation/evaluation.py b/babylondigger/evaluation/evaluation.py
index 72346a5..1fd6171 100644
--- a/babylondigger/evaluation/evaluation.py
+++ b/babylondigger/evaluation/evaluation.py
@@ -241,8 +241,8 @@ def get_metrics_averager(metrics: List[str]):
                 if score[metric].aligned_accuracy is not None:
                     sums[metric]['aligned_accuracy'] += score[metric].aligned_accuracy
 
-        return {metric: _Scores(**{key: value / len(scores) for key, value in sums[metric].items()}) for metric in
-                metrics}
+        averages = {metric: {key: value / len(scores) for key, value in sums[metric].items()} for metric in metrics}
+        return {metric: _Scores(**{'aligned_accuracy': None, **averages[metric]}) for metric in metrics}
 
     return calculate_average_scores
 
-- 
2.43.0


From 4839f668d64dc866e5e9b7f3e9d3e39633273c24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:02 +0000
Subject: [PATCH 17/25] fix: metrics which are compared but not printed were
 lost in average scores

---
 babylondigger/evaluation/evaluation.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/babylondigger/evaluation/evaluation.py b/babylondigger/evaluation/evaluation.py
index 1fd6171..bc26c45 100644
--- a/babylondigger/evaluation/evaluation.py
+++ b/babylondigger/evaluation/evaluation.py
@@ -259,7 +259,9 @@ def main(args):
 
     trainer = get_trainer(args.method)
 
-    metrics_averager = get_metrics_averager(args.settings["metric_printer"]["fields"])
+    # average scores are compared as well as printed
+    metrics_averager = get_metrics_averager(sorted({*args.settings["metric_printer"]["fields"],
+                                                    *args.settings["cmp_metric"]["fields"]}))
     estimator = __build_estimator(args, metrics_printer, metrics_averager)
     hyperparams = args.hyperparams
     if not isinstance(hyperparams, list):
-- 
2.43.0


From 3c3270d61a36ffaeaee7866348db48345d806378 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:01 +0000
Subject: [PATCH 18/25] fix: reject sentences of a document without tokens

---
 babylondigger/datamodel.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/babylondigger/datamodel.py b/babylondigger/datamodel.py
index 21f6f22..797051a 100644
--- a/babylondigger/datamodel.py
+++ b/babylondigger/datamodel.py
@@ -443,16 +443,20 @@ class NavigableSentence(_WordList, _NavigableItem['NavigableSentence']):
 class Document(_WordList):
     def __init__(self, text: str, tokens: List[Token], sentences: Iterable[Sentence] = None, validate_syntax: bool = False):
 
+        if sentences is not None:
+            sentences = sorted(sentences, key=attrgetter('start', 'end'))
         if tokens:
             if sentences is None:
                 sentences = [Sentence(0, len(tokens))]
-            sentences = sorted(sentences, key=attrgetter('start', 'end'))
             if not sentences:
                 raise ValueError('there are some tokens outside of the sentence (tokens: {})'.format(tokens))
 
         _WordList.__init__(self, text, tokens, lambda token: token._head_document_index, sorted_sentences=sentences)
 
         if len(tokens) == 0:
+            if sentences:
+                raise ValueError('sentence refers to nonexistent token (sentence: {}, tokens count: 0)'
+                                 .format(sentences[-1]))
             self.__sentences = []
             return
 
-- 
2.43.0


From fae3f18d0985678203fff565bc5ac34c4b3878c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:09:50 +0000
Subject: [PATCH 19/25] fix: evaluator raised RecursionError on long chains of
 dependencies

---
 babylondigger/evaluation/conll17_ud_eval.py | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/babylondigger/evaluation/conll17_ud_eval.py b/babylondigger/evaluation/conll17_ud_eval.py
index f54e0c3..5533f82 100644
--- a/babylondigger/evaluation/conll17_ud_eval.py
+++ b/babylondigger/evaluation/conll17_ud_eval.py
@@ -160,17 +160,22 @@ def load_conllu(file):
         if not line:
             # Add parent UDWord links and check there are no cycles
             def process_word(word):
-                if word.parent == "remapping":
-                    raise UDError("There is a cycle in a sentence")
-                if word.parent is None:
+                # (without recursion: long sentences exceed its limit)
+                path = []
+                while word.parent is None:
                     head = int(word.columns[HEAD])
                     if head > len(ud.words) - sentence_start:
                         raise UDError("HEAD '{}' points outside of the sentence".format(word.columns[HEAD]))
-                    if head:
-                        parent = ud.words[sentence_start + head - 1]
-                        word.parent = "remapping"
-                        process_word(parent)
-                        word.parent = parent
+                    if not head:
+                        break
+                    parent = ud.words[sentence_start + head - 1]
+                    word.parent = "remapping"
+                    path.append((word, parent))
+                    word = parent
+                if word.parent == "remapping":
+                    raise UDError("There is a cycle in a sentence")
+                for word, parent in path:
+                    word.parent = parent
 
             for word in ud.words[sentence_start:]:
                 process_word(word)
-- 
2.43.0


From 2022abf39e8e4a250a40b79801bedc121c061953 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:14:56 +0000
Subject: [PATCH 20/25] fix: tasks without loss weights could not be built

---
 babylondigger/neural/tagger/task_builders.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/babylondigger/neural/tagger/task_builders.py b/babylondigger/neural/tagger/task_builders.py
index 45a2533..1a3c9c7 100644
--- a/babylondigger/neural/tagger/task_builders.py
+++ b/babylondigger/neural/tagger/task_builders.py
@@ -52,7 +52,7 @@ class DenseTaskNetworkBuilder(AbstractTaskNetworkBuilder):
 
     def _sum_losses(self, losses):
         if self.__loss_weights is None:
-            return tf.reduce_sum(tf.stack(losses), name='loss')
+            return tf.reduce_sum(tf.stack(list(losses.values())), name='loss')
 
         weighted_losses = []
         for loss in losses:
-- 
2.43.0


From 970db42388bbe00794b4515c6fc60b10334e53d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:14:56 +0000
Subject: [PATCH 21/25] fix: lemma_binary task could not be built (no list of
 initializers)

---
 babylondigger/neural/tagger/task_builders.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/babylondigger/neural/tagger/task_builders.py b/babylondigger/neural/tagger/task_builders.py
index 1a3c9c7..a06fee8 100644
--- a/babylondigger/neural/tagger/task_builders.py
+++ b/babylondigger/neural/tagger/task_builders.py
@@ -233,6 +233,9 @@ class LemmaSuffixBinaryTaskNetworkBuilder(AbstractTaskNetworkBuilder):
             'applicable_rules': tf.placeholder(tf.bool, [None, None, shapes['applicable_rules'][0]])
         }
 
+    def initializers(self):
+        return []
+
     def build(self, shapes, inputs, shared, gold, dropout):
         logits = self._logits(shapes, inputs, shared[self.__shared_name], dropout)
 
-- 
2.43.0


From 027ce428ba373fa168d7cb4cf8abbd7185d27d69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:14:56 +0000
Subject: [PATCH 22/25] fix: kernels of lemma_combo and BiLSTM_CNN had the same
 names

---
 babylondigger/neural/tagger/task_builders.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/babylondigger/neural/tagger/task_builders.py b/babylondigger/neural/tagger/task_builders.py
index a06fee8..7340f55 100644
--- a/babylondigger/neural/tagger/task_builders.py
+++ b/babylondigger/neural/tagger/task_builders.py
@@ -176,7 +176,7 @@ class LemmaCOMBOTaskNetworkBuilder(AbstractTaskNetworkBuilder):
         # apply dilated convolutions to concatenated char embeddings and shared's output
         cnn_input = tf.reshape(tf.concat([broadcast, ce], axis=-1),
                                [-1, 1, self.__max_word_length, self.__cnn_char_embed_size + self.__cnn_bilstm_dense_size])
-        cnn_output = utils.apply_conv_layer(cnn_input, self.__cnn_kernels, 'cnn_kernel')
+        cnn_output = utils.apply_conv_layer(cnn_input, self.__cnn_kernels, 'lemma_cnn_kernel')
 
         if self.__input_subwords_config.get("highway_layer", False):
             # apply highway layer
-- 
2.43.0


From 1b30035bd7b114b0438f1a6502b4dd707c636134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:28:25 +0000
Subject: [PATCH 23/25] fix: composite processor given an iterator of
 processors did nothing after it was opened

---
 babylondigger/processor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/babylondigger/processor.py b/babylondigger/processor.py
index 71e34dd..921b709 100644
--- a/babylondigger/processor.py
+++ b/babylondigger/processor.py
@@ -16,7 +16,7 @@ class DocumentProcessorInteface(object):
 
 class DocumentComplexProcessor(DocumentProcessorInteface):
     def __init__(self, processors: Iterable[DocumentProcessorInteface]):
-        self.__processors = processors
+        self.__processors = list(processors)  # used several times
 
     def process(self, documents: Iterator[Document]) -> Iterator[Document]:
         result = documents
-- 
2.43.0


From 55b03620b77a7bbc02f4c77629df668e1736cb39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:31:38 +0000
Subject: [PATCH 24/25] fix: Dozat wrapper raised AttributeError instead of its
 message when used outside of a context

---
 babylondigger/wrappers/tdozat.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/babylondigger/wrappers/tdozat.py b/babylondigger/wrappers/tdozat.py
index 9de721e..b50fdfb 100644
--- a/babylondigger/wrappers/tdozat.py
+++ b/babylondigger/wrappers/tdozat.py
@@ -58,7 +58,7 @@ class TDozatDocumentProcessor(DocumentProcessorInteface):
 
     def process(self, documents: Iterator[Document]) -> Iterator[Document]:
         if self._sess is None:
-            raise RuntimeError(f'Use {self.__name__} as context manager')
+            raise RuntimeError(f'Use {type(self).__name__} as context manager')
         documents_list = list(documents)
         return iter(self.__parse_documents(documents_list))
 
-- 
2.43.0


From cbeb5941ffdef33f9cf1c47d2c6d3041d75aa856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:31:38 +0000
Subject: [PATCH 25/25] fix: Dozat wrapper mixed predictions left by a failed
 run into the next one

---
 babylondigger/wrappers/tdozat.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/babylondigger/wrappers/tdozat.py b/babylondigger/wrappers/tdozat.py
index b50fdfb..f1601d5 100644
--- a/babylondigger/wrappers/tdozat.py
+++ b/babylondigger/wrappers/tdozat.py
@@ -92,6 +92,7 @@ class TDozatDocumentProcessor(DocumentProcessorInteface):
 
         dataset = _DocumentDataset(documents, self.__network.vocabs, config=self.__config)
         # following code is copy-pasted from tdozat_parser.parser.base_network.BaseNetwork#parse_file
+        self.parse_outputs.predictions = {'indices': []}  # predictions of a failed run may be left
         probability_tensors = self.parse_outputs.probabilities
         for i, indices in enumerate(dataset.batch_iterator(shuffle=False)):
             tokens, lengths = dataset.get_tokens(indices)
-- 
2.43.0

