#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so the statements stay easy to edit)."""
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,state=(),observe=(),hook=None):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],
                   state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
                   observe_at=list(observe),hook_needed=hook)))

p("T01","Every encoding is well formed, whatever the text and pipeline",
  "For every input text or pair of texts and every supported pipeline (normalizer, splitter, model, post-processor, truncation, padding), encoding succeeds and every per-token field of the result and of each of its overflow parts (ids, type ids, tokens, offsets, word indexes, special-token mask, attention mask) has the same length. Masks contain only 0 and 1, a token is attended exactly when it is not padding, and each text token's id and string are the pair the tokenizer's vocabulary assigns to each other (a token of unknown text or an added token may instead carry the text it stands for).",
  ["inputs","configurations"],"all well-formed texts (single, pair, already split into words), all combinations of pipeline parts, special tokens on or off, with and without truncation and padding",
  "The tests encode a handful of fixed sentences with three or four fixed pipelines and compare a few fields; the guarantee is over the product of texts and configurations.",
  ["tokenizer.go","encoding.go","pretokenizer.go","util.go","processor/bert.go","processor/template.go"],
  [("Tokenizer.Encode / PostProcess","tokenizer.go"),("PreTokenizedString.IntoEncoding","pretokenizer.go"),("Encoding.MergeWith/Truncate/Pad","encoding.go")],
  [("Encoding","seven parallel per-token slices plus overflow and sequence ranges","encoding.go")],["Tokenizer.Encode","Tokenizer.EncodeBatch","Tokenizer.EncodeCharOffsets"])
p("T02","Offsets of every token point back into the original text",
  "For every input, each text token's offsets are a valid span of the original text: they lie inside it, never decrease from token to token, start and end on character boundaries when the text tokens cover whole characters, and select exactly the original text the token was produced from. Requesting character offsets instead of byte offsets yields the same tokens with each bound converted to a character count.",
  ["inputs","configurations"],"all texts (multi-byte characters, removed, inserted and replaced characters, repeated spaces, added tokens), all pipelines whose normalization keeps alignments, byte and character offsets",
  "Existing tests check offsets of a few ASCII sentences; multi-byte text, end-of-text tokens and changed text are where conversion goes wrong.",
  ["pretokenizer.go","normalizer/normalized.go","model/wordpiece/wordpiece.go","model/bpe/word.go","model/unigram/unigram.go"],
  [("IntoEncoding offset conversion","pretokenizer.go"),("ConvertOffset","normalizer/normalized.go"),("BytesToCharOffsetConverter","pretokenizer.go")],
  [("alignments","normalized byte -> original span","normalizer/normalized.go"),("originalShift","position of a slice in the original","normalizer/normalized.go")],["Encoding.Offsets","PreTokenizedString.GetSplits"])
p("T03","Batch encoding and decoding equal one-by-one calls, in order",
  "For every list of inputs and every scheduling of the concurrent workers, batch encoding returns at position i exactly what encoding input i alone returns (apart from padding to a common length), and batch decoding returns at position i exactly the decoding of sequence i. Every input yields exactly one result, no data race occurs, and if any input fails the batch reports an error rather than partial results.",
  ["schedules","inputs"],"all lists of inputs and all completion orders of the concurrent workers",
  "The outcome depends on goroutine interleavings; the tests run one schedule on tiny batches and cannot force a completion order.",
  ["tokenizer.go"],[("EncodeBatch errgroup writing encodings[i] under a mutex","tokenizer.go"),("DecodeBatch goroutines and WaitGroup","tokenizer.go")],
  [("results slice","shared by all workers","tokenizer.go")],["Tokenizer.EncodeBatch","Tokenizer.DecodeBatch"])
p("T04","Encoding, decoding and queries never change the tokenizer",
  "For every history of encode, decode, vocabulary and lookup calls on one tokenizer, each call returns what it would return on a freshly built tokenizer in the same configuration: no such call changes the vocabulary, its size, the configuration or the result of any later call. Calls that change the configuration or add tokens affect only later calls.",
  ["histories","schedules"],"all sequences of public calls on one tokenizer, including results mutated by the caller",
  "Each test builds a fresh tokenizer and makes one call; aliasing between results, caches and vocabulary maps only shows on the second call.",
  ["tokenizer.go","added-vocabulary.go","util.go","model/bpe/bpe.go","model/unigram/unigram.go"],[("GetVocab merging added tokens","tokenizer.go"),("PostProcess building a fresh parameter struct","tokenizer.go")],
  [("Tokenizer","model, added vocabulary, truncation, padding","tokenizer.go")],["Tokenizer.GetVocab","Tokenizer.GetVocabSize","Tokenizer.Encode","Tokenizer.Decode"])
p("T05","Loading a tokenizer configuration builds exactly the described pipeline",
  "For every configuration document (tokenizer.json) made of supported parts, the loaded tokenizer behaves exactly like one assembled by hand from the same parts and options: same normalization, splitting, model, post-processing, decoding, added tokens, truncation and padding. A part with an unknown type, or an unknown behaviour, scheme, strategy or pattern name, and a required option which is missing or of another kind, is reported as an error and never silently replaced or dropped, and never a crash. Left open: options the loader documents as ignored (fuse_unk and byte_fallback of BPE, use_regex, truncation direction, pad_to_multiple_of), defaults of padding options, ids given twice or with gaps, the Nmt normalizer.",
  ["configurations","inputs"],"all documents built from the supported component types and option values, and documents with one unknown component",
  "Most loading tests need the network and fail offline; the offline ones only check that a few documents load.",
  ["pretrained/model.go","pretrained/normalizer.go","pretrained/pretokenizer.go","pretrained/processor.go","pretrained/decoder.go","pretrained/padding.go","pretrained/truncation.go","pretrained/tokenizer.go"],
  [("Create* factories","pretrained/*.go"),("FromReader","pretrained/tokenizer.go")],[("Config","parsed document","config.go")],["pretrained.FromReader"])
p("T06","Ready-made tokenizers are the documented pipeline with the options asked for",
  "For every vocabulary (and merges) of the model's files, every option and every text, each ready-made tokenizer (BertBaseUncased, BertLargeCasedWholeWordMaskingSquad, GPT2, RobertaBase, RobertaBaseSquad2) behaves exactly like one assembled by hand from its documented parts. BERT: the normalizer with all its options (the cased one without lowercasing), the BERT splitter, WordPiece with [UNK], [MASK], [SEP] and [CLS] as special tokens, [CLS] and [SEP] put around with the ids they have in the vocabulary, the WordPiece decoder. GPT-2 and RoBERTa: byte-level splitting that adds a space in front only if asked, byte-level BPE, offsets trimmed only if asked and knowing of the space added, <s> and </s> as special tokens put around by RoBERTa with ids 0 and 2, and a byte-level decoder, so that what is encoded decodes to the text. Making one reads the files that lie next to the code wherever the program is run, leaves the working directory of the program as it was, and changes nothing about tokenizers made before.",
  ["configurations","inputs","histories"],"all files of the five models, both values of each option, all texts, several tokenizers made in one program in any order",
  "The tests of these constructors need files that are not there or only look at one text; options, other vocabularies and side effects are never looked at.",
  ["pretrained/bert.go","pretrained/gpt2.go","pretrained/roberta.go","util/file.go"],
  [("BertBaseUncased, BertLargeCasedWholeWordMaskingSquad","pretrained/bert.go"),("GPT2","pretrained/gpt2.go"),("RobertaBase, RobertaBaseSquad2","pretrained/roberta.go"),("CdToThis, CdBack","util/file.go")],[("working directory","of the process","util/file.go")],["pretrained.BertBaseUncased","pretrained.GPT2","pretrained.RobertaBase"])
p("E01","Truncation keeps the limit and loses no token",
  "With truncation enabled and a limit that leaves room for the special tokens, the final encoding is never longer than the limit, special tokens included, and nothing is removed when it already fits. Longest-first removes tokens one at a time from the end of whichever sequence is currently longer (the second on a tie), only-first and only-second remove only from that sequence, and the kept tokens are an unchanged prefix. The removed tokens appear, in order and complete, in the overflow parts: consecutive windows no longer than the kept part, each beginning with the last 'stride' tokens of the previous one.",
  ["inputs","configurations"],"all sequence lengths, limits, strides smaller than the kept length, strategies, single and pair, with and without special tokens",
  "Two tests truncate one five-token encoding; the window arithmetic depends on the relation between length, limit and stride.",
  ["encoding.go","util.go","tokenizer.go"],[("Encoding.Truncate, getCurrentPart","encoding.go"),("TruncateEncodings","util.go"),("PostProcess","tokenizer.go")],
  [("Overflowing","windows of truncated tokens","encoding.go")],["Encoding.Truncate","TruncateEncodings","Tokenizer.PostProcess"])
p("E02","Padding is uniform, one-sided and inert",
  "Padding to a fixed length or to the longest of a batch makes every encoding (and each overflow part) shorter than the target exactly the target length and leaves longer ones untouched. Padding positions are all on the configured side and carry the configured id, type id and token, attention 0, special mask 1, empty offsets and no word; all original positions keep every value they had, in order, and sequence ranges keep designating the same tokens.",
  ["inputs","configurations"],"all batches of encodings, targets, directions, pad values, with and without overflow parts",
  "Padding is tested on the right side with one length; left padding and padded overflow parts are never run.",
  ["encoding.go","util.go","tokenizer.go"],[("Encoding.Pad","encoding.go"),("PadEncodings","util.go")],[("Encoding","seven parallel slices","encoding.go")],["Encoding.Pad","PadEncodings","Tokenizer.EncodeBatch"])
p("E03","Merging encodings is concatenation, including overflow parts",
  "Merging encodings concatenates every per-token field in order, shifts the offsets of the later one by the end of the earlier only when growing offsets are requested, and makes each merged sequence range designate the same tokens as before. Overflow parts are all combinations in order: each part of the first followed by the second, then by each part of the second, and finally the first followed by each part of the second. The encoding merged in and the caller's other encodings are not modified. Merging no encodings gives the empty encoding, and a copy equals what it was copied from and changes independently of it.",
  ["inputs","histories"],"all pairs and chains of encodings with any overflow parts and sequence ranges",
  "One test merges two one-token encodings without overflow or ranges.",
  ["encoding.go","tokenizer.go"],[("Encoding.Merge/MergeWith","encoding.go"),("MergeEncodings","tokenizer.go")],[("SequenceRanges","tokens of each input sequence","encoding.go"),("Overflowing","overflow parts","encoding.go")],["Encoding.MergeWith","Encoding.Merge","tokenizer.MergeEncodings"])
p("E04","Post-processing inserts exactly the template's special tokens",
  "For every single or pair encoding, post-processing with special tokens yields exactly the template of the processor - the listed special tokens and the sequences in order, with the listed type ids - marks exactly the inserted tokens as special with no word and empty offsets, and inserts the same special tokens around every overflow part; without special tokens it only concatenates the sequences. The number of tokens inserted always equals the number the processor announces. A template written as text denotes the pieces it names, with their type ids, and the builder counts the announced tokens and tells an incomplete template from a complete one after any history of changes.",
  ["inputs","configurations"],"all encodings (empty, with overflow parts), all processors and templates, single and pair, special tokens on and off",
  "Tests cover one or two fixed encodings per processor and never compare the announced count with the inserted one on overflow parts.",
  ["processor/bert.go","processor/roberta.go","processor/template.go","processor/sequence.go","processor/bytelevel.go","tokenizer.go"],
  [("Process / AddedTokens of each processor","processor/"),("ApplyTemplate","processor/template.go"),("PrepareEncodings","tokenizer.go")],[("Template","sequence of special tokens and $A/$B","processor/template.go")],["processor.NewPiece","TemplateProcessingBuilder","PostProcessor.Process","PostProcessor.AddedTokens","Tokenizer.PostProcess"])
p("E05","Position lookups on an encoding agree with its token arrays",
  "For every encoding and every index, the lookups between words, tokens, characters and sequences agree with the per-token arrays: a word's token range runs from its first to its last token within the first sequence that has the word, its character span runs from that first to that last token, a character belongs to the first token whose offsets contain it, and a token belongs to the sequence whose range contains it. An index with no answer is reported as absent and never panics or returns another element.",
  ["inputs"],"all encodings (empty, with special tokens and padding, pairs) and all indexes including out-of-range ones",
  "One test queries a few in-range indexes of one encoding.",
  ["encoding.go","util.go"],[("Word2Tokens, Word2Chars, Token2Chars, Token2Word, Char2Token, Char2Word, Token2Sequence, SequenceRange, GetSequenceIds","encoding.go")],[("Words/Offsets/SequenceRanges","lookup sources","encoding.go")],["Encoding lookups"])
p("N01","Normalized text always stays aligned with the original",
  "After any history of normalization operations on a text (filtering, prepending, appending, replacing, stripping, case changes, decomposition, range transforms, slicing, splitting), the original text is unchanged, every byte of the normalized text maps to a valid non-decreasing span of the original and every byte of the original to a valid non-decreasing span of the normalized text. A character that was not touched still maps to exactly itself, removed text maps to an empty span, and slices keep offsets relative to the whole original. Ranges of bytes and of characters are converted into each other exactly.",
  ["histories","inputs"],"all texts and all finite sequences of normalization operations",
  "Tests apply one operation to one string; alignment corruption needs an operation applied to an already changed or sliced text.",
  ["normalizer/normalized.go"],[("TransformRange / Transform","normalizer/normalized.go"),("ConvertOffset, Slice, Split, Replace","normalizer/normalized.go")],[("alignments, alignmentsOriginal, originalShift","mapping in both directions","normalizer/normalized.go")],["NormalizedString.Alignments","AlignmentsOriginal","OffsetsOriginal","ConvertOffset"])
p("N02","Each normalizer produces exactly its specified text",
  "For every well-formed text, each normalizer produces exactly the text its definition prescribes: canonical and compatibility (de)composition as Unicode defines them, removal of accents, lower-casing, stripping, replacement of every match, prefixing of non-empty text, BERT cleaning, sentencepiece's precompiled map (each grapheme cluster of fewer than six bytes, else each character, becomes what the shortest rule it starts with prescribes, possibly nothing), and for a sequence the composition of its members in order. Normalizing never fails, never returns nothing, and leaves empty text empty.",
  ["inputs","configurations"],"all texts, all normalizers and all sequences of them",
  "A few fixed strings per normalizer; already-normalized, empty and length-changing inputs are not reached.",
  ["normalizer/normalized.go","normalizer/bert.go","normalizer/strip.go","normalizer/unicode.go","normalizer/replace.go","normalizer/prepend.go","normalizer/sequence.go","normalizer/default.go","normalizer/precompiled.go","spm/spm-precompiled.go"],
  [("Normalize methods","normalizer/*.go"),("NFD/NFC/NFKD/NFKC, Filter, Lowercase, Replace, Prepend, lrstrip","normalizer/normalized.go")],[("normalized","current text","normalizer/normalized.go")],["Normalizer.Normalize"])
p("S01","Patterns tile the text and splitting follows the delimiter behaviour",
  "For every text and pattern (character, literal, regular expression, predicate, inverted), the reported matches are consecutive, non-empty except for empty text, cover the text exactly once, and flag exactly the leftmost non-overlapping occurrences. Splitting then returns, in order, exactly the pieces the delimiter behaviour prescribes (removed, isolated, merged with previous, merged with next, contiguous), each still located at its own place in the original text.",
  ["inputs","configurations"],"all texts, patterns and delimiter behaviours",
  "Each behaviour is tested on one or two strings; adjacent, leading and trailing delimiters and multi-byte text are where they differ.",
  ["normalizer/pattern.go","normalizer/normalized.go"],[("FindMatches of each pattern","normalizer/pattern.go"),("NormalizedString.Split","normalizer/normalized.go")],[("OffsetsMatch","span and whether it matched","normalizer/pattern.go")],["Pattern.FindMatches","NormalizedString.Split"])
p("S02","Pre-tokenizers cut text exactly where their rule says",
  "For every text, each splitter (whitespace, whitespace-only, punctuation, digits, delimiter, BERT, metaspace, byte-level, custom split and sequences of them) produces exactly the pieces its rule prescribes, in text order, non-empty and non-overlapping, with offsets locating each piece in the original text (a character the rule puts before the text has the place of the first one). Only characters the rule discards are missing, and pieces that already carry tokens are passed through unchanged.",
  ["inputs","configurations"],"all texts, all splitters with all options and sequences of splitters, with or without already-tokenized pieces",
  "Tests fix a few English sentences per splitter; runs of delimiters, text edges, non-ASCII classes and compositions are not covered.",
  ["pretokenizer.go","pretokenizer/bert.go","pretokenizer/whitespace.go","pretokenizer/punctuation.go","pretokenizer/digits.go","pretokenizer/delimiter.go","pretokenizer/metaspace.go","pretokenizer/bytelevel.go","pretokenizer/split.go","pretokenizer/sequence.go"],
  [("PreTokenize of each splitter","pretokenizer/*.go"),("PreTokenizedString.Split/Normalize","pretokenizer.go")],[("splits","pieces with optional tokens","pretokenizer.go")],["PreTokenizedString.GetSplits"])
p("S03","Byte-level tokenization is lossless",
  "For every text, the byte-level splitter maps each byte to its own printable character (a bijection over all 256 bytes), and decoding the resulting tokens - however the model cuts or merges them - gives back exactly the original text, with at most the requested leading space added. Trimming offsets only moves offsets past spaces and never changes tokens, ids or any other offset.",
  ["inputs","configurations"],"all texts, all byte-level options, any cut of the byte-level text into tokens",
  "The tests round-trip a few sentences; the property is about every byte and every cut point.",
  ["pretokenizer/bytelevel.go","processor/bytelevel.go"],[("BytesChar/CharBytes tables","pretokenizer/bytelevel.go"),("PreTokenize, Decode, Process","pretokenizer/bytelevel.go")],[("BytesChar, CharBytes","byte <-> printable character","pretokenizer/bytelevel.go")],["ByteLevel.PreTokenize","ByteLevel.Decode","Tokenizer.Encode/Decode"])
p("V01","Vocabulary ids are unique, stable and reversible through any additions",
  "For every history of adding ordinary and special tokens, each distinct token has exactly one id, no id is shared by two tokens, ids never change, and looking a token up by id and an id up by token are inverse. New tokens get consecutive ids from the first free one after the model's vocabulary, known and empty tokens are ignored, and the returned count, the sizes and the listed vocabulary agree with what was added.",
  ["histories","configurations"],"all sequences of token additions (duplicates, empty, already in the model, special or not) interleaved with queries",
  "Tests add tokens once; reuse of ids needs repeated additions interleaved with queries.",
  ["added-vocabulary.go","tokenizer.go"],[("AddTokens/AddSpecialTokens id assignment","added-vocabulary.go"),("GetVocab/GetVocabSize","tokenizer.go")],[("addedTokenMap, addedTokenMapR, specialTokensSet","added tokens both ways","added-vocabulary.go")],["Tokenizer.AddTokens","Tokenizer.AddSpecialTokens","TokenToId","IdToToken","GetVocab","GetVocabSize"])
p("V02","Added tokens are always found whole, leftmost first, and never split",
  "For every text and set of added tokens, each occurrence selected from left to right (earliest start first; among tokens starting at the same place the one registered first, special tokens before ordinary ones) becomes exactly one token with its id, respecting the single-word and strip options, and is never altered or cut by normalization, splitting or the model; the text between occurrences is processed as usual. Decoding with special tokens skipped drops exactly the special tokens.",
  ["inputs","configurations","histories"],"all texts and all sets of added tokens (overlapping, prefixes of each other, special or normalized, strip and single-word options)",
  "Tests use one or two non-overlapping tokens; overlap and order resolution are not exercised.",
  ["added-vocabulary.go","pretokenizer.go","tokenizer.go"],[("findMatches, splitWithIndices, ExtractAndNormalize","added-vocabulary.go"),("PreTokenizedString.Split keeping tokenized pieces","pretokenizer.go"),("Decode","tokenizer.go")],[("splitRe, splitNormalizedRe","patterns of the added tokens","added-vocabulary.go")],["Tokenizer.Encode","Tokenizer.Decode"])
p("B01","BPE applies merges by rank, leftmost first, and covers the word",
  "For every vocabulary, merge list and word, BPE tokenization equals repeatedly merging the lowest-ranked mergeable adjacent pair (the leftmost on a tie) until none applies, starting from the characters of the word, each unknown character being replaced by the unknown token (an error when there is none). The tokens cover the word contiguously with exact byte offsets; with dropout every result is still reachable by applying listed merges, and full dropout applies none.",
  ["inputs","configurations"],"all vocabularies, merge lists, words, unknown tokens and dropout probabilities",
  "Tests use one small merge list and two words; ties, competing overlaps and chains of merges depend on queue order.",
  ["model/bpe/bpe.go","model/bpe/word.go"],[("Word.MergeAll priority queue","model/bpe/word.go"),("BPE.MergeWord/Tokenize","model/bpe/bpe.go")],[("Word.Symbols","linked list of symbols","model/bpe/word.go")],["BPE.Tokenize","Word.MergeAll"])
p("B02","The BPE word cache is invisible and bounded under concurrency",
  "For every history of tokenizations, cache clears and concurrent calls, a BPE model with a cache of any capacity (none included) returns exactly what it returns without a cache. The cache stores entries until it is full, never holds more than its capacity, and a lookup returns only the value stored under that key since the last clear; concurrent use is equivalent to some sequential order without data races.",
  ["histories","schedules","configurations"],"all sequences and interleavings of get, set, clear and size operations, all capacities",
  "Tests make a few sequential calls; the guarantee concerns interleavings and eviction histories.",
  ["model/bpe/cache.go","model/bpe/bpe.go"],[("Cache with read-write lock and capacity check","model/bpe/cache.go"),("TokenizeWithCache","model/bpe/bpe.go")],[("cmap, Capacity","cached words","model/bpe/cache.go")],["Cache.Get","Cache.SetValues","Cache.GetSize","BPE.Tokenize"])
p("B03","BPE training is a deterministic function of the word counts",
  "For every multiset of words and every option, training the BPE trainer twice gives the same vocabulary and merges: special tokens first, then the (possibly limited) alphabet, then one new token per merge, never beyond the target size except for special tokens and alphabet. Each merge is of a pair whose frequency in the current segmentation is at least the minimum frequency and highest among the remaining pairs (the smaller ids on a tie), and the merged token is the concatenation of its parts, the continuing prefix not repeated.",
  ["inputs","configurations","schedules"],"all word counts, vocabulary sizes, minimum frequencies, alphabet limits and special tokens",
  "One test trains on one small corpus with distinct counts; ties, stale counts and options are not covered and map order hides nondeterminism.",
  ["model/bpe/trainer.go","model/bpe/word.go"],[("BpeTrainer.Train main loop","model/bpe/trainer.go"),("computeAlphabet, tokenizeWords, countPairs","model/bpe/trainer.go"),("Word.Merge","model/bpe/word.go")],[("pairCounts, whereToUpdate, queue","pair statistics","model/bpe/trainer.go")],["BpeTrainer.Train"])
p("B04","Training counts every word of every file exactly once",
  "For every set of training files, the word counts handed to the trainer are exactly the counts of the pieces of all lines of all files, independently of how reading is scheduled. After training the tokenizer uses the new model and knows its special tokens, and a missing file is an error rather than missing words.",
  ["inputs","schedules"],"all sets of files (empty files, empty lines, no final newline, repeated files) and all schedules of the reading workers",
  "One test trains from one file and does not check the counts; workers share state.",
  ["tokenizer.go"],[("Tokenizer.Train goroutines, channel and dictionary","tokenizer.go"),("processChunk","tokenizer.go")],[("dict","aggregated counts","tokenizer.go")],["Tokenizer.Train with a recording Trainer"])
p("M01","WordPiece segmentation is greedy longest-match or the unknown token",
  "For every vocabulary and word, WordPiece returns the greedy longest-match-first segmentation (continuation pieces carrying the prefix) covering the word contiguously, or a single unknown token spanning the whole word when some position cannot be matched or the word exceeds the length limit. If the unknown token is missing from the vocabulary an error is returned.",
  ["inputs","configurations"],"all vocabularies, words, prefixes and length limits",
  "Tests segment a few English words with one vocabulary; multi-byte words and the length limit are not reached.",
  ["model/wordpiece/wordpiece.go"],[("WordPiece.Tokenize","model/wordpiece/wordpiece.go")],[("vocab","pieces","model/wordpiece/wordpiece.go")],["WordPiece.Tokenize"])
p("M02","WordLevel maps each word to its id or to the unknown token",
  "For every vocabulary and word, WordLevel returns exactly one token spanning the word: the word's own id when it is in the vocabulary, otherwise the unknown token's id, and an error when neither exists. Looking up ids and tokens are inverse functions on the vocabulary.",
  ["inputs","configurations","histories"],"all vocabularies, unknown tokens and words",
  "One test with one vocabulary.",
  ["model/wordlevel/wordlevel.go"],[("WordLevel.Tokenize, TokenToId, IdToToken","model/wordlevel/wordlevel.go")],[("vocab, vocabR","both directions","model/wordlevel/wordlevel.go")],["WordLevel.Tokenize"])
p("M03","Unigram returns a best-scoring segmentation, cached or not",
  "For every scored vocabulary and text, the Unigram tokens cover the text contiguously, every token is a vocabulary piece or stands for unknown characters, and no other segmentation has a higher total score. Adjacent unknowns are fused exactly when fusing is enabled, byte fallback replaces only unknown pieces, and repeating a call (cached) returns the same result.",
  ["inputs","configurations","histories"],"all scored vocabularies, texts, unknown/fuse/byte-fallback options and repeated calls",
  "Tests use two or three short texts with hand-picked scores.",
  ["model/unigram/unigram.go"],[("encode (Viterbi) and Tokenize","model/unigram/unigram.go")],[("best path table, cache","dynamic programming state","model/unigram/unigram.go")],["Unigram.Tokenize"])
p("M04","Saving a model and loading it back preserves its behaviour",
  "For every BPE, WordPiece, WordLevel and Unigram model that can be represented in its file format, saving it and loading the files (a Unigram file being the model section of a tokenizer configuration) gives a model with the same vocabulary (and merges in the same order, or scores), which tokenizes every word identically. A failing save or load (missing directory, malformed or incomplete file) is reported as an error, never as a silently different model.",
  ["inputs","configurations","fault_sequences"],"all vocabularies and merge lists representable in the files, all words, malformed and missing files",
  "Only one save test exists and it does not reload.",
  ["model/bpe/bpe.go","model/wordpiece/wordpiece.go","model/wordlevel/wordlevel.go"],[("Save and ReadFiles/NewFromFile","model/*/")],[("vocab, merges","model contents","model/")],["Model.Save","NewBpeFromFiles","NewWordPieceFromFile","wordlevel files"])
p("D01","Decoders compute their specified text for every token sequence",
  "For every token sequence, including empty and unusual ones, each decoder (BPE, WordPiece, byte-fallback, CTC, metaspace, fuse, strip, replace, byte-level and sequences of them) returns exactly the text its rule prescribes and never panics; decoding equals joining the result of its chain form, and a sequence of decoders is the composition of its members in order.",
  ["inputs","configurations"],"all token sequences and all decoder options and chains",
  "Tests decode one or two sequences per decoder; empty, short and malformed tokens are not reached.",
  ["decoder/bpe.go","decoder/wordpiece.go","decoder/byte-fallback.go","decoder/ctc.go","decoder/fuse.go","decoder/strip.go","decoder/sequence.go","pretokenizer/metaspace.go","normalizer/replace.go"],
  [("DecodeChain of each decoder","decoder/*.go"),("DecoderBase.Decode","decoder/decoder.go")],[],["Decoder.Decode","Decoder.DecodeChain","Tokenizer.Decode"])
p("F01","The local file cache only ever serves complete files",
  "Whenever resolving a model file reports success, the returned cached file holds exactly the bytes of its source, local or downloaded, whatever failed before and whatever other calls run at the same time. A failed, interrupted or truncated copy or download reports an error and leaves nothing behind that a later call, for this or another file, would serve as if it were complete. A source that can be read in full is resolved; once cached, a file is served without its source until the cache is cleaned. (A model and file name that spell the same path are the same file.)",
  ["fault_sequences","crash_points","histories"],"all sequences of resolutions with missing files, HTTP errors, broken or short transfers, failing writes and crashes between steps",
  "Tests need the network and only cover the successful path.",
  ["file-util.go","init.go"],[("CachedPath lookup order","file-util.go"),("downloadFile via temporary file and rename","file-util.go"),("copyFile","file-util.go")],[("CachedDir contents","cached files","file-util.go")],["CachedPath"])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P))
