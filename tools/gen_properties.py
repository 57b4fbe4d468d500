"""Regenerates /verif/properties.jsonl (single place where the property texts live)."""
import json, os

P = []


def prop(id, title, statement, over, qtext, why, files, mech, observe=None):
    assert len(title) <= 80, (id, len(title))
    anchors = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "hook_needed": None}
    if observe:
        anchors["observe_at"] = observe
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": anchors})


DM = "babylondigger/datamodel.py"
IO = "babylondigger/evaluation/conllu_io.py"
EV = "babylondigger/evaluation/evaluation.py"
UD = "babylondigger/evaluation/conll17_ud_eval.py"
GR = "babylondigger/evaluation/grid_eval.py"
DS = "babylondigger/evaluation/dataset.py"
EX = "babylondigger/features/extractors.py"
BU = "babylondigger/features/builder.py"
PR = "babylondigger/features/provider.py"
LR = "babylondigger/lemmas/transformation_rules.py"
NT = "babylondigger/neural/tagger/neural_tagger.py"
UP = "babylondigger/wrappers/udpipe1_2.py"

prop("C01", "A document is accepted exactly when its segmentation is well formed",
     "A document can be constructed exactly when no two of its tokens overlap (the words of one multiword token share a span and are numbered consecutively from 0) and its sentences cover all of its tokens consecutively, without gaps, overlaps or references to tokens that do not exist. Every other combination is rejected with ValueError, whatever the order in which tokens and sentences are given. When no sentences are given, all tokens form one sentence. A token or sentence without anything in it never becomes part of a document.",
     ["inputs"], "All token lists (any order, with multiword tokens), sentence lists and texts.",
     "The tests build a dozen hand-written layouts; the rule quantifies over all layouts and orders, including ones that are broken in exactly one place.",
     [DM], [("Document constructor validation", DM + ":Document.__init__"), ("token sequence checks", DM + ":_WordList.__init__")])

prop("C02", "Document and sentence views agree with the segmentation they were built from",
     "The tokens of a document are enumerated in text order whatever order they were given in, each sentence enumerates exactly its own tokens in that order, and every token shows the text it covers (or its own word text inside a multiword token), whether whitespace or the end of the text follows, and its annotations unchanged. Moving to the next or previous token or sentence, asking for first or last, indexing from the front or from the back, and going to a token's syntactic head (through the document or through the sentence) always lead to the item that the order and the annotation define, and stop at the borders.",
     ["inputs", "histories"], "All well-formed documents and all navigation walks over them.",
     "Tests navigate two fixed documents of a few tokens; index arithmetic between document and sentence views is only exposed by many-sentence documents, multiword tokens and unsorted input.",
     [DM], [("views", DM + ":_WordList, NavigableSentence, NavigableToken"), ("navigation", DM + ":_NavigableItem")])

prop("C03", "Syntax validation accepts exactly well-formed dependency trees",
     "A document checked for syntax is accepted exactly when each of its sentences either has no heads at all or has a head for every token such that the heads form one tree with a single root inside this sentence; everything else is rejected with ValueError. The answer does not depend on whether a head is given as position in the document, position in the sentence or both, and the heads read back are the same for all three notations. Two notations of one head that contradict each other are rejected whether or not syntax is checked.",
     ["inputs"], "All head assignments over all sentence splits, in all notations.",
     "The tests try about ten assignments on sentences of three tokens; cycles away from the first token, late second roots and heads crossing a sentence border need generated graphs.",
     [DM], [("tree validation", DM + ":Document.__validate_syntax"), ("head index conversion", DM + ":Token.fill_heads")])

prop("C04", "Annotation values are immutable and only the requested part changes",
     "Deriving a token with other morphology, syntax or extras changes exactly the requested attributes and leaves the original token and every document that contains it untouched; objects handed out or passed in (features, extras, token lists) can be modified without affecting what was stored. Deriving a document from new tokens keeps its text and sentences and is rejected with ValueError unless the new tokens cover the same positions one by one. Tags, tokens, sentence boundaries and documents are equal exactly when their visible contents are equal, equal tags have equal hashes, and tags are totally ordered consistently with equality even when parts of them are missing.",
     ["inputs", "histories"], "All tokens, tags, extras and sequences of derivation and mutation-of-returned-value steps.",
     "Tests check a few equalities of fixed tokens; aliasing and dropped attributes show up only for particular attribute combinations and histories.",
     [DM], [("copy-on-derive constructors", DM + ":Token.with_morphology, with_syntax, with_extras, update_extras"),
            ("defensive copies", DM + ":Pos, TokenExtras"), ("document derivation", DM + ":Document.from_document")])

prop("C05", "Writing a document as CoNLL-U and reading it back is lossless",
     "For every document whose tokens are separated by at most one space and whose texts and annotations can be represented in the format, writing it and reading it back yields the same text (up to trailing whitespace), the same tokens, multiword tokens and sentence boundaries, and the same value in every selected annotation column, with unselected columns empty. This holds through files and strings, for any number of documents written together, and for any mixture of sentences with and without multiword tokens. Where a document has no syntax, a valid placeholder tree is written instead. Documents that are equal are written as the same text.",
     ["inputs", "configurations"], "All representable documents, column subsets and groupings into documents.",
     "Tests round-trip three fixed fragments; state carried from one sentence or multiword token to the next only shows for particular sequences of them.",
     [IO], [("writer states", IO + ":_RegularTokenWriterState, _MultiwordTokenWriterState"), ("line formatting", IO + ":to_conll"),
            ("reader", IO + ":CoNLLUReader")])

prop("C06", "Reading CoNLL-U yields exactly what the file says",
     "For every valid CoNLL-U input the documents read contain every syntactic word exactly once, in order and in the right sentence, with precisely the values of the requested columns ('_' meaning no value), heads and relations resolved within the sentence, multiword tokens covering their surface form, and text formed by the surface forms joined by a space unless the input says there is none. Comments, empty nodes (anywhere, including inside multiword tokens) and unrelated MISC attributes never change the result, nor does reading from a file instead of a string or the line ending style.",
     ["inputs", "configurations"], "All valid CoNLL-U texts, requested column sets, and line-ending styles.",
     "Tests read three fragments; the interaction of comments, empty nodes, multiword ranges and MISC attributes has to be generated.",
     [IO], [("reader state machine", IO + ":_ReaderState, _MultiWordReaderState"), ("line parser", IO + ":_line_parser")])

prop("C07", "Splitting or truncating CoNLL-U input never loses or invents words silently",
     "The sentences read are the same whatever limit of sentences per document is chosen; every document but the last holds exactly that many sentences, and no document is empty. If the input is cut off at any point, everything yielded before the end is a correct prefix of the full reading, and a sentence cut in the middle is reported by an exception instead of being returned or dropped silently; so is a sentence that ends before all words of a multiword token have been given. Reading the same data set again yields the same documents.",
     ["inputs", "configurations", "crash_points", "histories"], "All valid inputs, all limits, all cut-off points, repeated and interleaved iteration.",
     "Tests use one limit and intact inputs; neither every truncation offset nor every relation of limit to sentence count can be listed by hand.",
     [IO, DS], [("document limit", IO + ":CoNLLUReader._read"), ("end of input handling", IO + ":_ReaderState.document"),
                ("data set iteration", DS + ":CoNLLUDataSet")])

prop("C08", "Every written document is accepted by the scorer and scores perfectly",
     "The CoNLL-U text written for any documents with non-blank token texts and either valid syntax or none in each sentence is loaded by the scorer without error, with the same words, surface tokens and sentences as the documents have. Scoring such a text against itself gives 100% for every metric that counts any word. Changing a single annotation of a single word lowers exactly the metrics that depend on this annotation, each by this one word.",
     ["inputs"], "All writable documents, and all single-annotation changes of them.",
     "Tests evaluate two fixed corpora; agreement of writer and scorer must hold for every document, in particular multi-sentence ones with multiword tokens or without syntax.",
     [IO, UD], [("writer", IO + ":CoNLLUWriter, to_conll fake heads"), ("scorer loading", UD + ":load_conllu"), ("scorer", UD + ":evaluate")])

prop("C09", "The scorer loads valid CoNLL-U exactly and reports anything else as UDError",
     "For any text whatsoever, loading it into the scorer either succeeds or raises UDError, and never any other exception. It succeeds exactly for texts of 10-column lines grouped in sentences that each end with an empty line, have consecutively numbered words (the words inside a multiword token are only counted), non-empty surface forms and a single-rooted tree of heads; the loaded words, surface spans, sentence spans and parents then agree with the text, with comments and empty nodes skipped, spaces inside forms ignored and relation subtypes removed.",
     ["inputs"], "All texts: valid, mutated and arbitrary.",
     "The embedded tests load only well-formed toy sentences built by one helper; malformed input has unboundedly many forms.",
     [UD], [("loading", UD + ":load_conllu")])

prop("C10", "Scores equal those of the official scorer of the CoNLL 2017 shared task",
     "For any two loadable files over the same characters, precision, recall, F1 and aligned accuracy of every metric equal those of the official scorer of the CoNLL 2017 shared task (version 1.1): spans compared exactly for tokens and sentences, words aligned by span or, inside multiword spans, by the longest common subsequence of case-insensitive forms, and tags, lemmas and attachment compared on aligned words (attachment against the aligned parent, content words only for CLAS, and given weights for the weighted variant). Files over different characters are rejected with UDError. All scores lie between 0 and 1 and swapping the two files swaps precision and recall for tokens and sentences, and for words if both files have the same surface tokens or no multiword tokens.",
     ["inputs", "configurations"], "All pairs of files over one character sequence with independent segmentation, multiword tokens and annotation; all weight tables.",
     "The embedded tests cover a dozen alignments of four-letter texts and only the Words metric.",
     [UD], [("alignment", UD + ":align_words, find_multiword_span, compute_lcs"), ("scores", UD + ":alignment_score, spans_score")])

prop("C11", "A tagger under test never sees gold annotation and is scored on its own output",
     "When a tagger is tested on gold data it receives the gold documents with the same texts, tokens and sentences but without any tags, lemmas, heads or relations, and the scores returned are those of the shared-task scorer for its output against the unmodified gold data. If results are saved, the saved file reads back as precisely the tagger's output at the given place, and the scores are the same as without saving. Testing can be repeated with the same outcome and does not modify the gold data. If the tagger fails, its failure is passed on and results saved before are kept.",
     ["inputs", "configurations", "histories"], "All gold data, all tagger behaviours (correct, partially wrong, lazily evaluated), both data sources, with and without saved results.",
     "Tests run one stub tagger over one document.",
     [EV], [("removal of annotation", EV + ":TaggerTester.__prepare_test_data"), ("scoring", EV + ":TaggerTester.test"),
            ("results file", EV + ":TaggerTester._save_and_read")])

prop("C12", "The selected model is the best on development data, the earliest among equals",
     "Out of all epochs of a training run the model kept is the one with the greatest sum of the chosen metric over the chosen fields on development data, and out of all hyperparameter sets the one whose (average) kept score is greatest; the earliest wins among equals. With several seeds every seed keeps its own best model, and the hyperparameters reported are those of the selected set; reported development and test scores are the arithmetic means over the seeds of the scores of exactly the kept models. Test data are used only for the finally selected models, once per seed. If results are saved, the output of each tested model is kept in a file of its own.",
     ["histories", "configurations", "inputs"], "All sequences of development scores over epochs, seeds and hyperparameter sets, all choices of fields and metric.",
     "Tests cover one search over four parameter sets with a fake evaluator, and no epochs or seeds.",
     [EV], [("epoch selection", EV + ":SingleSeedEvaluator.evaluate"), ("seed averaging", EV + ":AverageEvaluator, get_metrics_averager"),
            ("parameter search", EV + ":ParametersEstimator.params_search"), ("comparison", EV + ":score_comparator")])

prop("C13", "Model files are deleted only when disposable and only inside the model directory",
     "During an experiment that cleans up after itself, the files of the best model so far (of every seed of the best hyperparameter set so far) exist until the final test has used them, models that have been beaten are removed, and at the end the model directory is gone while every other file remains. An experiment asked to clean up refuses to start, without touching anything, if the model directory already has content. If training, tagging or testing fails, the failure is passed on and these models remain. Without clean-up no model file is ever removed.",
     ["histories", "configurations"], "All sequences of scores over epochs, seeds and hyperparameter sets; all prior contents of the model directory and its surroundings.",
     "No test deletes anything; which directory is removed when depends on the whole history of scores.",
     [EV], [("clean-up callback", EV + ":__build_estimator.remove_model"), ("guard and final removal", EV + ":main")])

prop("C14", "Grid search tries every combination exactly once on top of unmodified defaults",
     "Given default hyperparameters and a grid, the experiment is run on exactly the Cartesian product of the grid entries, in order with the last entry varying fastest, each combination being an independent copy of the defaults in which only the named (possibly nested) parameters are replaced. A grid that names a parameter missing from the defaults, mixes different parameters in one entry, or has the same parameter in two entries is rejected with ValueError before anything is trained. Defaults, settings and method are passed on unchanged, and models are always cleaned up.",
     ["inputs", "configurations"], "All nested defaults and grids whose alternatives each name one parameter.",
     "The grid tests look at single merges and do not run in this environment; order, independence and rejection quantify over arbitrary nesting.",
     [GR], [("merging", GR + ":__merge_dicts, __build_list_of_new_hyperparams"), ("validation", GR + ":__check_is_grid_valid"), ("product", GR + ":main")])

prop("C15", "Shuffling is a reproducible permutation in which no document is lost",
     "Iterating over a shuffled data set yields every document exactly once, whatever the batch size, the number of documents and the number of earlier, unfinished or simultaneous iterations. Two shuffled data sets with the same seed produce the same orders in successive iterations, even if earlier ones are unfinished, successive iterations are shuffled anew, and no document moves further than the batch size allows. The underlying data set is not modified.",
     ["inputs", "histories", "configurations"], "All data set sizes, batch sizes, seeds and interleavings of iterations.",
     "Tests check one size and one seed.",
     [DS], [("batched shuffle", DS + ":ShuffledDataset.__iter__")])

prop("C16", "Lemma rules invert and the rule index finds exactly the applicable ones",
     "For every word and lemma, the rule derived from the pair is applicable to the word and turns it into the lemma, is as short as the longest common beginning allows, and is marked as a whole-word exception exactly when there is no common beginning. Applying a rule to any word with the required ending replaces precisely this ending, and to any other word raises ValueError. For any set of rules, looking up a word in the rule index returns each regular rule whose ending is a proper ending of the word and each exception equal to the word, exactly once, and nothing else.",
     ["inputs"], "All word/lemma pairs, rule sets and looked-up words.",
     "Tests use about ten hand-picked words.",
     [LR], [("rule derivation", LR + ":LemmaSuffixTransformation.get_rule, transform"), ("rule index", LR + ":LemmaTransformationTrie")])

prop("C17", "Decoding an encoded part-of-speech label gives back the same tag",
     "For every splitting mode, encoding the tag of any token of the training data and decoding the resulting label gives back an equal tag (part of speech, language-specific tag and all features), and leaves the rest of the token alone. All label parts lie within the announced sizes, the parts and sizes are announced in the same order in which they are encoded, each announced label decodes to a value that occurs in the training data for that part, and label 0 is one of the most frequent values. The labels do not depend on the order of the training documents when no frequencies tie, and a value unseen in training is encoded as label 0. Having used the same provider for other training data before makes no difference.",
     ["inputs", "configurations"], "All training data (including missing parts of tags) and all four splitting modes.",
     "There is no test of label encoding.",
     [EX], [("splitters", EX + ":PosNoSplitter, PosUXFSplitter, PosXFSplitter, PosGranularSplitter"), ("vocabulary", EX + ":_id2obj, _count_parts"),
            ("decoding", EX + ":PosDictInterpreter")])

prop("C18", "Decoding an encoded lemma label gives back the lemma",
     "For every lemma representation (vocabulary, suffix rules, character sequence), encoding the lemma of a training token and decoding the label for that token gives the lemma back: exactly for the vocabulary, in lower case for suffix rules kept by the frequency threshold, and as sequence of kept characters cut at the maximal length for characters. Labels are always within the announced sizes and character labels always have the maximal length. The marked applicable rules are exactly the kept ones that fit the word, an inapplicable rule leaves the lower-cased word as lemma, and tags, position and syntax of the token are never changed. Having used the same provider for other training data before makes no difference.",
     ["inputs", "configurations"], "All training data, thresholds and maximal lengths; all label values.",
     "There is no test of label encoding.",
     [EX, LR], [("vocabulary labels", EX + ":LemmaDictFeatureExtractor"), ("suffix labels", EX + ":SuffixTransformationFeatureExtractor, CachedSuffixRulesBuilder"),
                ("character labels", EX + ":LemmaCharExtractor, LemmaCharInterpreter")])

prop("C19", "Every word and subword gets the identifier of its own vocabulary entry",
     "For pretrained embeddings, the identifier of a word (lower-cased if so configured) selects in the initial matrix precisely the vector that the file gives for it, words missing from the file share the unknown identifier, the padding row is zero and the announced size is sufficient for all identifiers; files with inconsistent vector lengths are rejected. For trained embeddings and subwords, exactly the units occurring at least the minimal number of times in training data get an identifier of their own, distinct and deterministic, all others share the unknown one, and subword sequences are framed by start and end marks in text order. Identifiers never coincide with the reserved ones. Having used the same provider for other training data before makes no difference.",
     ["inputs", "configurations"], "All embedding files, training data, thresholds, case settings and segmenters.",
     "There is no test of feature extraction.",
     [EX, PR], [("embedding file", EX + ":_read_embeddings, EmbeddingInitializer"), ("vocabularies", EX + ":TrainableEmbeddingsExtractorBuilder, TokenCharactersFeatureExtractorBuilder"),
                ("subword sequences", EX + ":SubwordFeatureExtractor, segmenters")])

prop("C20", "Batches are rectangular and contain each sentence's own features",
     "The features of a batch of sentences are, per feature, the features of the single sentences in order, extended only at the end by padding values to a rectangular array. Any combination of features extracted together gives for each feature the same values as extracted alone, independent of how they are combined; two features of the same name are rejected. Sparsification leaves the shape intact, only ever replaces values by the unknown identifier, replaces nothing at rate 0, everything at rate 1 and about the given share in between.",
     ["inputs", "configurations"], "All batches of sentences of differing lengths, all sets of features, and all rates.",
     "There is no test of feature extraction.",
     [BU, PR], [("padding", BU + ":PaddingFeatureExtractor"), ("composition", BU + ":merge, CompositeFeatureExtractor, IterableFeatureExtractor"),
                ("sparsification", BU + ":SparseFeatureExtractor"), ("assembly", PR + ":FeatureExtractorBuilderProvider")])

prop("C21", "A saved tagger predicts the same after loading as when it was saved",
     "A tagger that is saved and loaded again, in the same or another process and any number of times, annotates every document exactly as it did when it was saved, including words never seen in training. Continuing training after saving does not change what was saved, and taggers saved at different places do not influence each other. The loaded model is released even if tagging is stopped early or fails. The trainer for pretrained models yields the models saved in a folder in alphabetical order of their names.",
     ["inputs", "histories", "fault_sequences"], "All training data and feature configurations, all documents tagged after loading, all interleavings of saving, training and tagging, and failures in the middle of tagging.",
     "No test saves or loads a tagger.",
     [NT, EX], [("saving and loading", NT + ":NeuralTagger.save, load, LazyNeuralTagger"), ("extractor state", EX + ":*Extractor, *Interpreter")])

prop("C22", "Training feeds every sentence once per epoch with its own labels",
     "In every epoch each training sentence is fed to the model exactly once, in data set order, in batches of the configured size except a smaller last one, and the features and labels fed together are those of the same sentences. The learning rate is divided by 1 + decay * e before epoch e (counted from 0), and after an epoch by the configured factor exactly when the summed aligned development accuracy of this epoch exceeds neither that of the epoch before nor the mean of the last five (accuracies before the first epoch counting as 0); dropout, and sparsification at the configured rate, are applied in training only. After every epoch the mean loss over its batches is reported, and one model is saved under its own name and yielded together with its development scores.",
     ["inputs", "configurations", "histories"], "All training data, batch sizes, numbers of epochs, optimizer settings and development score histories.",
     "No test trains a neural model.",
     [NT], [("epoch loop", NT + ":NeuralTaggerTrainer.train"), ("batches", NT + ":_get_minibatches, _train_epoch"), ("learning rate", NT + ":_get_lr")])

prop("C23", "Tagging gives each token the prediction made for it and keeps the segmentation",
     "For any documents and any model output, the tagger yields one document per input document, in order and lazily, with the same text, tokens, multiword tokens and sentences, where each token carries the decoded prediction made for this very token and keeps the annotation the tagger does not predict. Sentence order, sentence length differences and empty documents do not matter. Input documents are not modified.",
     ["inputs", "histories"], "All documents, label sets and model predictions.",
     "No test runs the neural tagger.",
     [NT, BU], [("tagging", NT + ":NeuralTagger.tag"), ("interpretation", BU + ":IterableInterpreter, CompositeInterpreter")])

prop("C24", "The UDPipe wrappers transfer annotation word for word",
     "For any document, UDPipe is given each sentence with its words in order (the words inside multiword tokens, not the surface forms) and the existing lemmas, tags and features of each word, together with the given options, and the result carries for each word exactly the lemma, tags, features, head and relation that UDPipe assigned to it, empty values meaning none. Text, tokens, multiword tokens and sentences of the document are kept, sentences do not influence each other, and the tagger only tags, the parser only parses, and the combined processor tags before it parses.",
     ["inputs", "histories"], "All documents and all annotations UDPipe may assign.",
     "No test covers the wrappers.",
     [UP], [("conversion", UP + ":convert_to_ud, convert_from_ud"), ("processors", UP + ":UDPipeTagger, UDPipeParser, UDPipeTaggerParser")])

prop("C25", "A pipeline applies its processors in order, lazily, and the baselines are exact",
     "A composite processor gives for any documents the same as applying its processors one after another in the given order, without consuming more input than the consumer asks for, and opens and closes each processor exactly once, passing errors on to each of them and to the caller. The baseline tagger gives every token the most frequent tag (upos, xpos and features) of its training data and its own text as lemma; the baseline parser makes the first token of every sentence the root and attaches every other token to the one before it. Both keep text, segmentation and all annotation they do not predict.",
     ["inputs", "histories"], "All sequences of processors, documents and training data.",
     "Tests run the stub tagger on one document; no test covers composition.",
     ["babylondigger/processor.py", "babylondigger/tagger.py", "babylondigger/parser.py"],
     [("composition", "babylondigger/processor.py:DocumentComplexProcessor"), ("baseline tagger", "babylondigger/tagger.py:StubTagger, StubTaggerTrainer"),
      ("baseline parser", "babylondigger/parser.py:StubParser")])

prop("C26", "The network predicts valid labels and ignores padding in its loss",
     "For every supported combination of features and tasks, the network built from the announced sizes accepts the extracted batches and predicts for every token of every sentence labels within the announced sizes; the label predicted is the one for which the training loss would be least, and the suffix-rule lemmatizers predict only rules applicable to the word whenever there is one. The training loss is the weighted sum of the cross-entropies of all label parts, averaged over the real tokens only: it does not depend on the labels at padding positions nor, in networks without convolution over the sentence, on the features there; the same holds for the predictions. Pretrained vectors are in place, row by row, after initialization and stay there in training if not trainable; a network that was saved and restored predicts the same as when it was saved, and networks built with the same seed start equal. Training lowers the loss of the batch trained on; dropout takes effect in training and never in prediction.",
     ["inputs", "configurations", "histories"], "All feature and task configurations, label sizes, batches of differing lengths, and padding contents.",
     "Nothing in the tests builds a network.",
     ["babylondigger/neural/network.py", "babylondigger/neural/utils.py", "babylondigger/neural/initializers.py", "babylondigger/neural/model.py",
      "babylondigger/neural/tagger/shared_builders.py", "babylondigger/neural/tagger/task_builders.py"],
     [("loss masking", "babylondigger/neural/tagger/task_builders.py:_loss"), ("applicability mask", "babylondigger/neural/tagger/task_builders.py:LemmaSuffixTaskNetworkBuilder"),
      ("initialization", "babylondigger/neural/initializers.py:MatrixInitializer"), ("saving", "babylondigger/neural/model.py:Model.save, load")])

prop("C27", "The external Dozat parser wrapper transfers heads and relations word for word",
     "For any documents, the external parser or tagger is handed the words of each sentence in order with their annotation in CoNLL-U notation, and the result is, in order, each document with the same text, tokens, multiword tokens and sentences, in which every word has exactly the lemma, tags, head and relation given out for this very word ('_' or a missing field meaning none) and the requested extra outputs for this word in addition to the extras it already had. This does not depend on how the external program batches and pads sentences, nor on the values given out (zeros included), nor on the same document being given twice, nor on earlier calls, failed ones included. The saved model is restored on opening; use outside of the context, a model of the wrong kind and an extra output that does not exist are rejected.",
     ["inputs", "histories", "fault_sequences"], "All documents, all outputs of the external program, all batchings, and all histories of calls, failures and reopening.",
     "No test covers the wrapper.",
     ["babylondigger/wrappers/tdozat.py"], [("conversion", "babylondigger/wrappers/tdozat.py")])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w", encoding="utf8") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P))
