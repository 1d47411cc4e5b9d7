#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that statements stay easy to edit)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     state=[dict(name=n, meaning=m, where=w) for n, m, w in (state or [])],
                     observe_at=observe or [], hook_needed=None)))

p("C01", "Per-token fields of every encoding always have the same length",
  "Whatever the pipeline configuration (normalizer, pre-tokenizer, model, added tokens, post-processor, truncation, padding) and whatever the single, pair, raw or pre-tokenized input, an encoding that is returned has one id, token, type id, offset pair, special-token mask, attention mask and word index per token, and so has every overflowing part of it. The ids and tokens agree with each other through the tokenizer's own id/token lookups (except unknown tokens, padding, and added tokens, which are shown as they stand in the text), and masks contain only 0 and 1. An encoding built from a list of tokens holds exactly those tokens, with the type id it was given.",
  ["configurations", "inputs"], "all combinations of pipeline stages and parameters x all inputs over a small alphabet up to a length bound, single and pair, raw and pre-tokenized",
  "Tests run a handful of sentences through three or four fixed pipelines; the parallel slices are rebuilt independently by merge, truncation, padding and each post-processor, so only the product of stages and inputs shows a missing or stale field.",
  ["tokenizer.go", "encoding.go", "util.go", "pretokenizer.go", "processor/bert.go", "processor/roberta.go", "processor/template.go", "processor/bytelevel.go", "processor/sequence.go"],
  [("merge/truncate/pad rebuild all parallel slices", "encoding.go"), ("IntoEncoding fills the slices from the splits", "pretokenizer.go"), ("post-processors build special-token encodings", "processor/")],
  observe=["Tokenizer.Encode", "Tokenizer.EncodePair", "Tokenizer.EncodeBatch"])

p("C02", "Offsets of a token denote the part of the input it came from",
  "For every input, each non-special token of an encoding carries offsets that lie inside the input, fall on character boundaries, never run backwards from one token to the next, and select exactly the piece of the original text that the token was made from, whatever normalization, pre-tokenization or added tokens did in between. Asking for character offsets instead of byte offsets yields the same tokens with the same pieces, counted in characters.",
  ["inputs", "configurations"], "all inputs over an alphabet with 1-4 byte, combining, whitespace and case-changing characters, up to a length bound, x pipelines",
  "Tests check offsets on a few ASCII and accented sentences; the mapping is a composition of four independently maintained alignments.",
  ["pretokenizer.go", "normalizer/normalized.go", "tokenizer.go", "added-vocabulary.go", "model/wordpiece/wordpiece.go", "model/bpe/bpe.go", "model/unigram/unigram.go"],
  [("IntoEncoding converts model offsets through the alignments of its split", "pretokenizer.go"), ("BytesToCharOffsetConverter", "pretokenizer.go"), ("alignments of a normalized string", "normalizer/normalized.go")],
  observe=["Encoding.Offsets", "Tokenizer.EncodeCharOffsets"])

p("C03", "Alignment of a normalized string survives every editing history",
  "After any sequence of editing operations (Unicode normalization, case mapping, filtering, mapping, replacing, prepending, appending, stripping, slicing, splitting) on a normalized string, it still holds exactly one original range per normalized byte, all ranges lie inside the original text, never run backwards, and both the original and the normalized text are what the operations specify. Converting a non-empty range of one text into the other never fails or leaves the text, and slices and splits carry the same text and ranges as the whole they were cut from.",
  ["histories", "inputs"], "all operation sequences up to a depth on all short strings over an alphabet of ASCII, multi-byte, combining, expanding and shrinking characters",
  "Tests apply one or two operations to hand-picked strings; alignment bugs need a second operation on text whose bytes already moved.",
  ["normalizer/normalized.go", "normalizer/pattern.go"],
  [("alignments / alignmentsOriginal updated by the transformation primitives", "normalizer/normalized.go")],
  observe=["NormalizedString.Alignments", "NormalizedString.Range", "NormalizedString.ConvertOffset", "NormalizedString.Split"])

p("C04", "Every normalizer produces the text its definition says",
  "For every input text, each configured normalizer (Unicode NFC, NFD, NFKC, NFKD, lowercasing, accent stripping, whitespace stripping, BERT cleaning, CJK spacing, replacement, prepending, and sequences of them) yields exactly the text given by its definition, independently of what ran before it. A sequence behaves as the composition of its members, and applying an idempotent normalizer twice changes nothing.",
  ["inputs", "configurations"], "all strings up to a length bound over an alphabet covering every class the normalizers distinguish, x all normalizers and option combinations and sequences of up to three",
  "Tests cover one sentence per normalizer; composition, multi-rune segments, empty results and strings that are already normalized are not sampled.",
  ["normalizer/unicode.go", "normalizer/bert.go", "normalizer/strip.go", "normalizer/replace.go", "normalizer/prepend.go", "normalizer/sequence.go", "normalizer/lowercase.go", "normalizer/normalized.go"],
  [("normalizer implementations", "normalizer/")],
  observe=["Normalizer.Normalize"])

p("C05", "Truncation keeps the budget, loses nothing and tiles the rest",
  "With truncation enabled, no returned encoding or overflowing part is longer than the configured maximum, special tokens included, whichever strategy is chosen, inputs that already fit are untouched, and a maximum that cannot be met is an error. The kept tokens followed by the overflowing parts are consecutive windows of the untruncated token sequence, each overlapping its predecessor by exactly the stride, and together they contain every token with all of its per-token data.",
  ["inputs", "configurations"], "all lengths of the sequence and its pair, all maximum lengths, strides and strategies up to a bound, with and without special tokens and existing overflow",
  "Tests check three or four (length, stride) pairs; aliasing between windows and off-by-one window counts appear only for particular combinations.",
  ["encoding.go", "util.go", "tokenizer.go"],
  [("Encoding.Truncate windows", "encoding.go"), ("TruncateEncodings strategies", "util.go"), ("budget reduced by the added-token count", "tokenizer.go")],
  observe=["Encoding.Truncate", "TruncateEncodings", "Tokenizer.Encode with truncation"])

p("C06", "Padding reaches the target length and touches nothing else",
  "With padding enabled, every encoding of a batch, and each of its overflowing parts, ends up with the target length (the fixed one, or that of the longest member, never shorter than the content). The padding stands entirely on the configured side, carries the configured pad id, type id and token, attention 0 and special mask 1 and an empty range, while the original tokens keep all their data, their order and their token positions in sequence queries.",
  ["inputs", "configurations"], "all batches of up to 3 encodings of small lengths with nested overflow x all padding configurations",
  "Tests cover one right-padded encoding and one left-padded one.",
  ["encoding.go", "util.go", "tokenizer.go"],
  [("Encoding.Pad / pad", "encoding.go"), ("PadEncodings", "util.go")],
  observe=["Encoding.Pad", "PadEncodings", "Tokenizer.EncodeBatch with padding"])

p("C07", "Post-processors add exactly the announced special tokens around content",
  "For every single or pair encoding, with or without overflow, a post-processor returns the content tokens unchanged and in order, surrounded by exactly the special tokens of its scheme in their places, flagged in the special-token mask and belonging to no word. The number of added tokens equals the number it announces, content offsets, type ids and sequence membership follow the scheme, every overflowing part gets the same framing, and nothing is added when special tokens are not requested.",
  ["inputs", "configurations"], "all post-processors and templates up to a size x all content lengths and overflow shapes, single and pair",
  "Tests check one single and one pair example per processor.",
  ["processor/bert.go", "processor/roberta.go", "processor/template.go", "processor/bytelevel.go", "processor/sequence.go", "tokenizer.go"],
  [("Process / AddedTokens", "processor/")],
  observe=["PostProcessor.Process", "PostProcessor.AddedTokens"])

p("C08", "Merging encodings concatenates them",
  "Merging any list of encodings yields the concatenation of all their per-token data in order, with offsets shifted by the end of what precedes exactly when growing offsets are asked for, and with each sequence keeping its own token range. The overflowing parts of a merge of two are exactly all combinations of the parts of both sides, and merging does not disturb what is merged in.",
  ["inputs", "histories"], "all lists of up to 3 encodings of small lengths with overflow x growing or not, and merges of merges",
  "Tests check a single merge of two one-token encodings.",
  ["encoding.go", "tokenizer.go"],
  [("Encoding.MergeWith / Merge", "encoding.go"), ("MergeEncodings", "tokenizer.go")],
  observe=["Encoding.MergeWith", "Encoding.Merge", "MergeEncodings"])

p("C09", "Lookups between tokens, words, characters and sequences agree",
  "For every encoding, the queries from token to sequence, word and characters, from word to tokens and characters, and from character to token and word give exactly the answer read off the per-token data by a linear scan, the first sequence winning where two have the same word or character. Positions that belong to no token, word or sequence are answered as not found, never by a failure.",
  ["inputs"], "all encodings of one or two sequences with up to 4 tokens, all word assignments including none, all offsets patterns, special tokens and padding, x every query argument in and just outside range",
  "Tests check a few queries on one encoding.",
  ["encoding.go"],
  [("lookup methods using sequence ranges", "encoding.go")],
  observe=["Encoding.Token2Sequence", "Token2Word", "Token2Chars", "Word2Tokens", "Word2Chars", "Char2Token", "Char2Word"])

p("C10", "BPE applies merges by rank, leftmost first, and covers the word",
  "For every vocabulary, merge list and word, the tokens are those obtained by repeatedly merging the leftmost pair of lowest rank, their offsets tile the word without gaps, unknown characters become the unknown token, one each, and word prefixes and suffixes are applied as configured. Probabilistic dropping of merges never yields a tokenization that does not spell the word, and none when its probability is 0.",
  ["inputs", "configurations"], "all merge lists up to a size over a tiny alphabet (including multi-byte characters) x all words up to a length bound x unknown/fuse/prefix/suffix options",
  "Tests use one merge list and a handful of words; equal ranks, overlapping pairs and stale queue entries depend on the interplay of merges.",
  ["model/bpe/bpe.go", "model/bpe/word.go"],
  [("Word.MergeAll priority queue over symbol links", "model/bpe/word.go"), ("BPE.MergeWord", "model/bpe/bpe.go")],
  observe=["BPE.Tokenize", "BPE.MergeWord", "Word.MergeAll"])

p("C11", "WordPiece and word-level models match their greedy definition",
  "For every vocabulary and word, the WordPiece model returns the greedy longest-match-first pieces, continuing pieces looked up with the configured prefix, tiling the word without gaps, or a single unknown token covering the whole word when some part cannot be matched or the word is longer than the limit. The word-level model returns the word's own id, or the unknown token's id, covering the word, and an error when neither exists.",
  ["inputs", "configurations"], "all vocabularies of up to a size over a tiny alphabet with multi-byte characters x all words up to a length x prefix and limit options",
  "Tests exercise only the builder.",
  ["model/wordpiece/wordpiece.go", "model/wordlevel/wordlevel.go"],
  [("greedy loop", "model/wordpiece/wordpiece.go"), ("lookup", "model/wordlevel/wordlevel.go")],
  observe=["WordPiece.Tokenize", "WordLevel.Tokenize"])

p("C12", "Unigram returns a best-scoring segmentation of the whole text",
  "For every vocabulary with scores and every text, the unigram model returns a segmentation whose pieces concatenate to the text and whose total score is maximal among all segmentations under the model's scoring rule, unknown stretches becoming the unknown token (fused when configured) or byte tokens when byte fallback is on. Offsets tile the text in pieces, and the answer does not depend on which texts were tokenized before.",
  ["inputs", "histories", "configurations"], "all small vocabularies with scores from a tiny domain x all texts up to a length bound, multi-byte included, x fuse/fallback options, and tokenization histories with cache hits",
  "Tests use one vocabulary and a handful of strings; optimality is a claim over all segmentations.",
  ["model/unigram/unigram.go"],
  [("Viterbi dynamic programme", "model/unigram/unigram.go"), ("tokenization cache", "model/unigram/unigram.go")],
  observe=["Unigram.Tokenize", "Unigram.Encode"])

p("C13", "Added tokens get unique, stable ids through any history",
  "Over any history of adding plain and special tokens, also interleaved with lookups and vocabulary reads, no two different tokens share an id, an id once given never changes, tokens the model already knows keep the model's id, and token-to-id and id-to-token lookups are inverse. The reported number of newly added tokens and the vocabulary and its size with and without added tokens agree with that history, and empty or repeated tokens are ignored.",
  ["histories"], "all histories up to a depth of add/add-special/read operations over a small set of tokens, some already in the model, on several models",
  "Tests have one fixed sequence of additions.",
  ["added-vocabulary.go", "tokenizer.go"],
  [("id allocation in AddTokens/AddSpecialTokens", "added-vocabulary.go"), ("GetVocab/GetVocabSize", "tokenizer.go")],
  observe=["Tokenizer.AddTokens", "Tokenizer.AddSpecialTokens", "Tokenizer.TokenToId", "Tokenizer.IdToToken", "Tokenizer.GetVocab", "Tokenizer.GetVocabSize"])

p("C14", "Added tokens are found in text exactly where they occur",
  "For every set of added tokens and every text, the text is cut, without losing or reordering anything, into stretches that are handed to normalizer and model and occurrences of added tokens that are not: at each place the leftmost occurrence wins, and a chosen occurrence becomes that token with its id. Whole-word-only, left-strip and right-strip options and matching on normalized text behave as configured.",
  ["inputs", "configurations"], "all sets of up to 3 added tokens with all option combinations x all texts up to a length bound over their letters, blanks and word characters, with and without normalizer",
  "Tests cover four sentences.",
  ["added-vocabulary.go", "pretokenizer.go", "tokenizer.go"],
  [("findMatches / splitWithIndices / ExtractAndNormalize", "added-vocabulary.go")],
  observe=["AddedVocabulary.ExtractAndNormalize", "Tokenizer.Encode"])

p("C15", "Pre-tokenizers cut the text as defined and lose nothing silently",
  "For every text, each pre-tokenizer (whitespace, whitespace split, BERT, punctuation, digits, delimiter, pattern split, byte-level, metaspace, Unicode script, and sequences of them) yields exactly the pieces of its definition in order, with ranges that select those pieces of the original. Removed text is only what the definition removes, matched delimiters go where the configured behaviour says, and pieces already tokenized are left alone.",
  ["inputs", "configurations"], "all texts up to a length bound over an alphabet covering every character class x all pre-tokenizers, split behaviours, inversion and sequences of two",
  "Tests cover one or two sentences per pre-tokenizer.",
  ["pretokenizer/*.go", "pretokenizer.go", "normalizer/normalized.go", "normalizer/pattern.go"],
  [("NormalizedString.Split and its behaviours", "normalizer/normalized.go"), ("patterns", "normalizer/pattern.go"), ("PreTokenize implementations", "pretokenizer/")],
  observe=["PreTokenizer.PreTokenize", "PreTokenizedString.GetSplits"])

p("C16", "Byte-level pipelines round-trip any text",
  "The byte-level alphabet maps the 256 byte values one-to-one onto printable characters, and encoding any text with a byte-level pipeline and decoding the ids again gives back the same text, up to the leading space the configuration inserts. This holds for any merges learned over that alphabet and for text in any script, with or without trimmed offsets.",
  ["inputs", "configurations"], "all 256 byte values, all strings up to a length bound over a mixed alphabet, x all small merge lists x prefix-space and trimming options",
  "Tests decode a few fixed sentences.",
  ["pretokenizer/bytelevel.go", "model/bpe/bpe.go", "tokenizer.go"],
  [("byte/char tables, PreTokenize and Decode", "pretokenizer/bytelevel.go")],
  observe=["Tokenizer.Encode then Tokenizer.Decode"])

p("C17", "Decoders rebuild text exactly as defined and skip special tokens",
  "For every list of tokens, each decoder (BPE, byte-level, WordPiece, metaspace, CTC, byte fallback, fuse, strip, replace, and sequences of them) gives exactly the text of its definition and never fails, and a sequence behaves as the composition of its members. Decoding ids skips unknown ids and, when asked, exactly the special tokens, keeping the order of the rest.",
  ["inputs", "configurations"], "all token lists up to a length bound over a small set of tokens covering every case of every decoder x all decoder options and sequences of up to three",
  "Tests check one list per decoder.",
  ["decoder/*.go", "pretokenizer/metaspace.go", "pretokenizer/bytelevel.go", "normalizer/replace.go", "tokenizer.go"],
  [("DecodeChain / Decode implementations", "decoder/"), ("Tokenizer.Decode", "tokenizer.go")],
  observe=["Decoder.Decode", "Decoder.DecodeChain", "Tokenizer.Decode"])

p("C18", "Batch calls equal their one-by-one results under every schedule",
  "Encoding or decoding a batch gives, in input order, exactly what encoding or decoding each item on its own gives (then padded together), for every interleaving of the internal goroutines and also when several goroutines share one tokenizer. No interleaving loses a result, returns an error that no item caused, deadlocks or races on memory.",
  ["schedules", "inputs"], "all interleavings of the goroutines of a batch of 2-3 items and of 2-3 concurrent callers, at every synchronization operation, up to a preemption bound, with a happens-before race detector on each",
  "Tests never run a batch of more than a few items and see one schedule per run.",
  ["tokenizer.go", "util.go", "model/bpe/cache.go", "model/bpe/bpe.go", "model/unigram/unigram.go"],
  [("EncodeBatch goroutine per item with indexed result", "tokenizer.go"), ("DecodeBatch goroutine per item", "tokenizer.go"), ("PadEncodings", "util.go"), ("RWMutex in the cache", "model/bpe/cache.go")],
  observe=["Tokenizer.EncodeBatch", "Tokenizer.DecodeBatch", "concurrent Tokenizer.Encode"])

p("C19", "The BPE cache is transparent, bounded and safe to share",
  "A cached BPE model answers exactly as an uncached one for any history of words, cache capacities and cache clearings, also when several goroutines use it at once. The cache never holds more entries than its capacity, never returns a value stored under another key, and a stored entry stays readable until cleared.",
  ["histories", "schedules"], "all histories up to a depth over a few words x capacities 0-3, and all interleavings of 2-3 goroutines using the cache up to a preemption bound",
  "Tests run one scripted multi-goroutine scenario with one schedule.",
  ["model/bpe/cache.go", "model/bpe/bpe.go"],
  [("Cache with RWMutex and capacity", "model/bpe/cache.go"), ("TokenizeWithCache, ClearCache", "model/bpe/bpe.go")],
  observe=["BPE.Tokenize", "bpe.Cache Get/Set/GetValues/SetValues/Clear"])

p("C20", "Training counts every word once, whatever the schedule or file split",
  "Training on files hands the trainer exactly the multiset of words of all lines of all files, for every interleaving of the reading goroutines and every way of distributing the lines over files, with no lost or doubled line, deadlock or memory race. A file that cannot be read or a text that cannot be processed gives an error and leaves the tokenizer as it was. Afterwards the tokenizer uses the trained model and knows the trainer's special tokens.",
  ["schedules", "inputs"], "all interleavings of 1-3 readers and the collector up to a preemption bound x small files, including empty ones, ones without a final newline, unreadable ones and ones cut into chunks at every place",
  "One training test exists and runs one schedule on one file.",
  ["tokenizer.go"],
  [("Train: reader goroutines, collector goroutine, channel and wait group", "tokenizer.go"), ("processChunk", "tokenizer.go")],
  observe=["Tokenizer.Train via the words passed to the trainer"])

p("C21", "Trained BPE and WordPiece vocabularies are well formed and reproducible",
  "For every word-count table and trainer setting, training yields the same model on every run and under every schedule of its workers: a vocabulary with unique contiguous ids that holds the special tokens first and in order, then the sorted alphabet (the most frequent characters within its limit, the initial alphabet before all others), then the prefixed and suffixed forms of the words' characters, then the results of the merges in their order. Each merge joins a pair that is the most frequent one in the words as cut at its time, with at least the minimum frequency (ties may go either way, but always the same way); merging ends when no such pair is left or the vocabulary has the requested size, whichever is first. Encoding a training word gives the cut that training ends with, unless some token was built in two ways. Both trainers can be given to Tokenizer.Train, which ends with the same model and the special tokens in use.",
  ["inputs", "schedules", "configurations"], "all word-count tables of up to 3 words over a tiny alphabet x all small trainer settings, and all worker interleavings of small counts up to a preemption bound",
  "One test trains on one table.",
  ["model/bpe/trainer.go", "model/bpe/word.go", "model/wordpiece/trainer.go"],
  [("pair counting workers, merge queue", "model/bpe/trainer.go")],
  observe=["BpeTrainer.Train", "resulting BPE vocab and merges"])

p("C22", "Saved models load back to the same behaviour",
  "For every model, saving it to a directory and building a model from the written files gives the same vocabulary and merges, and therefore the same tokens for every text. Saving the reloaded model writes the same files again.",
  ["inputs", "configurations"], "all small BPE, WordPiece, word-level and unigram models over an alphabet including multi-byte, quoting and punctuation characters x save name options",
  "One test loads one hand-written pair of files.",
  ["model/bpe/bpe.go", "model/wordpiece/wordpiece.go", "model/wordlevel/wordlevel.go", "model/unigram/unigram.go"],
  [("Save and ReadFiles/NewBpeFromFiles", "model/bpe/bpe.go"), ("Save/ReadFile", "model/wordpiece/wordpiece.go")],
  observe=["Model.Save and the file constructors"])

p("C23", "A loaded configuration builds exactly the pipeline it describes",
  "For every tokenizer configuration made of supported components, loading it yields a tokenizer that behaves on every text like the same pipeline built through the programming interface with the stated options, absent or null components being absent. An unsupported or malformed component yields an error, never a silently different tokenizer or the end of the process.",
  ["configurations", "inputs"], "all supported component kinds with all option values from small domains, one varied at a time and in pairs, x probe texts, and every single-field corruption of them",
  "The configuration tests need the network; none checks that an option value arrives.",
  ["config.go", "pretrained/*.go"],
  [("Create* factories reading component parameters", "pretrained/")],
  observe=["pretrained.FromFile / FromReader"])

p("C24", "A failed or interrupted download never becomes a cached file",
  "Whatever goes wrong while fetching a model file (HTTP errors, connection loss at any byte, wrong length, disk write failure, process death between any two file operations), the call reports an error or delivers the complete file, and a later call never serves a partial one. A file already cached is served unchanged without contacting the network.",
  ["fault_sequences", "crash_points", "histories"], "every fault kind at every response position x every crash point of the file operations, on histories of up to two calls",
  "The tests need the network and see only success.",
  ["file-util.go", "init.go"],
  [("CachedPath, downloadFile (temporary name then rename), copyFile", "file-util.go")],
  observe=["CachedPath return value and the files in the cache directory"])

p("C25", "Encoding and reading never change what later calls return",
  "For any history of encode, decode, vocabulary, lookup and token-listing calls, every call returns what it returns on a fresh tokenizer, and values handed out earlier are not altered by later calls or by the caller modifying a value it received. Merging, truncating, padding or post-processing one encoding never changes an unrelated one.",
  ["histories"], "all histories up to a depth of read operations and mutations of returned values, on several pipelines, compared with a fresh instance",
  "Tests build a new object for each assertion.",
  ["tokenizer.go", "added-vocabulary.go", "encoding.go", "model/*/*.go"],
  [("maps and slices returned or stored by reference", "tokenizer.go, encoding.go")],
  observe=["any public read operation"])

p("C26", "The precompiled character map normalizes every grapheme of the text",
  "With a precompiled character map, every short grapheme (or, failing that, character) of the text of which the map knows a prefix is replaced by the map's answer for the shortest such prefix, an empty answer included, and everything else is kept, over the whole text and for any text; what is kept stays aligned with itself and a replacement with the part of the text it replaces. Lookups in the map return exactly the entries whose key is a prefix of the query, and malformed maps give an error and not a crash.",
  ["inputs"], "all texts up to a length bound over mapped, unmapped and combining characters x the bundled map and all small hand-built maps, and all single-byte truncations of a map",
  "Tests check a dozen fixed strings.",
  ["spm/spm-precompiled.go", "normalizer/precompiled.go"],
  [("double-array common prefix search", "spm/spm-precompiled.go"), ("grapheme-wise replacement", "normalizer/precompiled.go")],
  observe=["Precompiled.NormalizeString", "Precompiled.Transform"])

p("C27", "Ranges in bytes and in characters convert into each other exactly",
  "For every valid UTF-8 text, a byte range whose ends lie between characters converts into the character range that covers the same text and back, whatever the width of the characters and the length of the text; a range past the end of the text is reported as having no counterpart (or cut at the end), and no range makes a conversion crash. A byte-to-character converter gives for every position of a token in the text the character offsets of that same piece of text, and taking a range of characters of a text returns exactly those characters.",
  ["inputs"], "all texts up to a length bound over characters of one to four bytes x all pairs of positions, and texts of hundreds of characters x a grid of positions",
  "Tests convert one or two ranges of one text; an error shows only with wide characters before or inside the range.",
  ["normalizer/normalized.go", "pretokenizer.go"],
  [("range conversions", "normalizer/normalized.go"), ("byte-to-character offsets", "pretokenizer.go")],
  observe=["normalizer.BytesToChar", "normalizer.CharToBytes", "normalizer.RangeOf", "tokenizer.BytesToCharOffsetConverter.Convert"])

p("C28", "Parameter sets and iterators follow their specification under every history",
  "A parameter set answers after any sequence of operations (set, get, pop, delete, select, copy, deep copy, clone) like a map that has seen the same sequence: a value that was set is returned by every later read until it is replaced, popped or deleted, whatever its type, reading with a default returns the default exactly when nothing but nil was set, and a deep copy or clone shares no set with its source. The rune and generic iterators and the rune reader yield every item once and in order, report the end exactly when nothing is left, and start over after a reset, under any sequence of calls.",
  ["histories"], "all operation sequences up to a depth over the operations of each object, compared step by step with a list or map",
  "Unit tests run one fixed sequence per object.",
  ["util/param.go", "util/iterator.go", "util/rune-reader.go"],
  [("parameter set", "util/param.go"), ("iterators", "util/iterator.go"), ("rune reader", "util/rune-reader.go")],
  observe=["util.Params", "util.RuneIter", "util.Iter", "util.RuneReader"])

p("C29", "Slice, range and line helpers do what they say on every input or give an error",
  "The helpers on slices of numbers and of texts (cut, delete, insert, pop, shift, reverse, filter, split into batches, remove duplicates and so on) return exactly what their name and comment say for every slice, position and size, the boundary positions included, and answer a position or size that makes no sense with an error rather than a crash or a wrong slice; so do the helpers that build ranges, find minima and maxima, merge, zip and read the lines of a file. Batches can grow without changing one another.",
  ["inputs"], "all slices up to a length bound x all positions and sizes around it x all helpers, every chain of two helpers, and files of all texts up to a length bound over letters and line ends",
  "There are next to no tests of these helpers, and boundary positions are where they differ.",
  ["util/slice/int.go", "util/slice/string.go", "util/util.go"],
  [("slice helpers", "util/slice/int.go"), ("range and line helpers", "util/util.go")],
  observe=["util/slice functions", "util.MakeRange", "util.ReadAllLn", "util.Merge", "util.Zip"])

p("C30", "Bundled presets build the documented tokenizer and change nothing else",
  "Each bundled preset (BERT base uncased, BERT large cased for SQuAD, GPT-2, RoBERTa base, RoBERTa base for SQuAD), whatever the working directory, loads the vocabulary and merges that lie beside it and gives the tokenizer its documentation describes: the stated normalizer, pre-tokenizer, special tokens and decoder, with a leading space added exactly if asked for and offsets trimmed exactly if asked for, so that the byte-level presets decode every text they encoded back to that text. Loading a preset leaves the working directory and every tokenizer loaded before it as they were, in any order and number of loads.",
  ["inputs", "histories"], "all texts up to a length bound and all vocabulary entries x all presets and option combinations, and all sequences of loads up to a depth from several working directories",
  "Tests load one preset and encode one sentence; three of the five are never run because their vocabularies are not in the repository.",
  ["pretrained/bert.go", "pretrained/gpt2.go", "pretrained/roberta.go"],
  [("preset constructors", "pretrained/bert.go, pretrained/gpt2.go, pretrained/roberta.go")],
  observe=["pretrained.BertBaseUncased", "pretrained.BertLargeCasedWholeWordMaskingSquad", "pretrained.GPT2", "pretrained.RobertaBase", "pretrained.RobertaBaseSquad2"])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
