------------------------------- MODULE Config -------------------------------
(* Loading a tokenizer from its configuration (tokenizer.json). A value of   *)
(* the document is a record of one field:                                    *)
(*   x text   n name (a text that is a keyword)   re regular expression      *)
(*   i integer   q number, in quarters   b boolean   z null   l list         *)
(*   o object (a record)   m object with texts as keys (entries)             *)
(*   sm rules of a precompiled map   smbad broken data of such a map         *)
(*   cut  a document of which the end is missing   none  there is no file    *)
(* A document has a verdict, that of the worst of its parts:                 *)
(*   0  it loads, as the tokenizer that is put together by hand              *)
(*   1  undecided: it loads or is reported as an error                       *)
(*   2  it is reported as an error                                           *)
EXTENDS Pipeline
F == INSTANCE ModelFiles
------------------------------------------------------------- \* options
Given(o, k) == k \in DOMAIN o /\ "z" \notin DOMAIN o[k]
Is(o, k, tag) == Given(o, k) /\ tag \in DOMAIN o[k]
Need(o, k, tag) == IF Is(o, k, tag) THEN 0 ELSE 2
May(o, k, tag) == IF Given(o, k) THEN Need(o, k, tag) ELSE 0
\* something that is not used, or has a default, if it is of another kind
Loose(o, k, tag) == IF Given(o, k) /\ ~Is(o, k, tag) THEN 1 ELSE 0
NameIn(o, k, names) == IF Is(o, k, "n") THEN (IF o[k].n \in names THEN 0 ELSE 2) ELSE 2
OrElse(o, k, tag, d) == IF Given(o, k) THEN o[k][tag] ELSE d
Worst(vs) == MaxOf({0} \cup {vs[i] : i \in 1..Len(vs)})
IsObj(d) == "o" \in DOMAIN d
TypeOf(d) == IF IsObj(d) THEN (IF Is(d.o, "type", "n") THEN d.o["type"].n ELSE "") ELSE ""
-------------------------------------------------------------- \* patterns
PatV(o) ==
  IF ~Is(o, "pattern", "o") THEN 2
  ELSE LET p == o["pattern"].o IN
       IF Given(p, "String") /\ Given(p, "Regex") THEN 1
       ELSE IF Given(p, "String") THEN Need(p, "String", "x")
       ELSE IF Is(p, "Regex", "x") THEN 1 ELSE Need(p, "Regex", "re")
PatOf(o) == LET p == o["pattern"].o IN IF Given(p, "String") THEN [k |-> "str", s |-> p["String"].x] ELSE [k |-> "re", r |-> p["Regex"].re]
----------------------------------------------------------- \* normalizers
UniForm(n) == CASE n = "NFC" -> 1 [] n = "NFD" -> 2 [] n = "NFKC" -> 3 [] n = "NFKD" -> 4
RECURSIVE NormV(_)
NormV(d) ==
  LET ty == TypeOf(d) IN
  CASE ty = "BertNormalizer" -> Worst(<<May(d.o, "clean_text", "b"), May(d.o, "handle_chinese_chars", "b"), May(d.o, "strip_accents", "b"), May(d.o, "lowercase", "b")>>)
    [] ty \in {"Strip", "StripNormalizer"} -> Worst(<<May(d.o, "strip_left", "b"), May(d.o, "strip_right", "b")>>)
    [] ty \in {"StripAccents", "NFC", "NFD", "NFKC", "NFKD", "Lowercase"} -> 0
    [] ty = "Replace" -> Worst(<<PatV(d.o), Need(d.o, "content", "x")>>)
    [] ty = "Prepend" -> IF Given(d.o, "prepend") THEN Need(d.o, "prepend", "x") ELSE 1
    [] ty = "Precompiled" -> Need(d.o, "precompiled_charsmap", "sm")
    [] ty = "Sequence" -> IF ~Given(d.o, "normalizers") THEN 1
                          ELSE IF Is(d.o, "normalizers", "l") THEN LET l == d.o["normalizers"].l IN Worst([i \in 1..Len(l) |-> NormV(l[i])]) ELSE 2
    [] OTHER -> 2
RECURSIVE NormOf(_)
NormOf(d) ==
  LET ty == TypeOf(d)  o == d.o IN
  CASE ty = "BertNormalizer" -> LET low == OrElse(o, "lowercase", "b", 0) IN
         [k |-> "bert", clean |-> OrElse(o, "clean_text", "b", 0), chinese |-> OrElse(o, "handle_chinese_chars", "b", 0), lower |-> low, accents |-> OrElse(o, "strip_accents", "b", low)]
    [] ty \in {"Strip", "StripNormalizer"} -> [k |-> "strip", l |-> OrElse(o, "strip_left", "b", 0), r |-> OrElse(o, "strip_right", "b", 0)]
    [] ty = "StripAccents" -> [k |-> "accents"]
    [] ty = "Lowercase" -> [k |-> "lower"]
    [] ty = "Replace" -> [k |-> "replace", p |-> PatOf(o), s |-> o["content"].x]
    [] ty = "Prepend" -> [k |-> "prepend", s |-> o["prepend"].x]
    [] ty = "Precompiled" -> [k |-> "spm", map |-> o["precompiled_charsmap"].sm]
    [] ty = "Sequence" -> LET l == o["normalizers"].l IN [k |-> "seq", ps |-> [i \in 1..Len(l) |-> NormOf(l[i])]]
    [] OTHER -> [k |-> "nf", f |-> UniForm(ty)]
------------------------------------------------------------- \* splitters
Behaviours == <<"Removed", "Isolated", "MergedWithPrevious", "MergedWithNext", "Contiguous">>
BehaviourV(o) == NameIn(o, "behavior", {Behaviours[i] : i \in 1..5})
BehaviourOf(o) == (CHOOSE i \in 1..5 : Behaviours[i] = o["behavior"].n) - 1
\* of a metaspace: 0 never, 1 first, 2 always
Schemes == [never |-> 0, Never |-> 0, NEVER |-> 0, first |-> 1, First |-> 1, FIRST |-> 1, always |-> 2, Always |-> 2, ALWAYS |-> 2]
MetaV(o) == Worst(<<IF ~Given(o, "replacement") THEN 1 ELSE IF ~Is(o, "replacement", "x") THEN 2 ELSE IF o["replacement"].x = <<>> THEN 1 ELSE 0, IF Given(o, "prepend_scheme") THEN Max2(NameIn(o, "prepend_scheme", DOMAIN Schemes), Loose(o, "add_prefix_space", "b")) ELSE May(o, "add_prefix_space", "b")>>)
SchemeOf(o) == IF Given(o, "prepend_scheme") THEN Schemes[o["prepend_scheme"].n] ELSE 2 * OrElse(o, "add_prefix_space", "b", 0)
ByteLevelV(o) == Worst(<<May(o, "add_prefix_space", "b"), May(o, "trim_offsets", "b")>>)
RECURSIVE PreV(_)
PreV(d) ==
  LET ty == TypeOf(d) IN
  CASE ty \in {"BertPreTokenizer", "Whitespace", "WhitespaceSplit", "UnicodeScripts"} -> 0
    [] ty = "ByteLevel" -> ByteLevelV(d.o)
    [] ty = "Delimiter" -> IF ~Is(d.o, "delimiter", "x") THEN 2 ELSE IF d.o["delimiter"].x = <<>> THEN 2 ELSE IF Len(d.o["delimiter"].x) > 1 THEN 1 ELSE 0
    [] ty = "Metaspace" -> MetaV(d.o)
    [] ty = "Punctuation" -> IF Given(d.o, "behavior") THEN BehaviourV(d.o) ELSE 1
    [] ty = "Digits" -> IF Given(d.o, "individual_digits") THEN Need(d.o, "individual_digits", "b") ELSE 1
    [] ty = "Split" -> Worst(<<PatV(d.o), BehaviourV(d.o), Need(d.o, "invert", "b")>>)
    [] ty = "Sequence" -> IF Is(d.o, "pretokenizers", "l") THEN LET l == d.o["pretokenizers"].l IN Worst([i \in 1..Len(l) |-> PreV(l[i])]) ELSE 2
    [] OTHER -> 2
ByteLevelOf(o) == [k |-> "bl", prefix |-> OrElse(o, "add_prefix_space", "b", 0), trim |-> OrElse(o, "trim_offsets", "b", 0)]
RECURSIVE SplitterOf(_)
SplitterOf(d) ==
  LET ty == TypeOf(d)  o == d.o IN
  CASE ty = "BertPreTokenizer" -> [k |-> "bert"]
    [] ty = "Whitespace" -> [k |-> "ws"]
    [] ty = "WhitespaceSplit" -> [k |-> "wssplit"]
    [] ty = "UnicodeScripts" -> [k |-> "script"]
    [] ty = "ByteLevel" -> ByteLevelOf(o)
    [] ty = "Delimiter" -> [k |-> "delim", c |-> o["delimiter"].x[1]]
    [] ty = "Metaspace" -> [k |-> "meta", s |-> o["replacement"].x, scheme |-> SchemeOf(o)]
    [] ty = "Punctuation" -> [k |-> "punct", b |-> BehaviourOf(o)]
    [] ty = "Digits" -> [k |-> "digits", ind |-> o["individual_digits"].b]
    [] ty = "Split" -> [k |-> "split", p |-> PatOf(o), b |-> BehaviourOf(o), inv |-> o["invert"].b]
    [] ty = "Sequence" -> LET l == o["pretokenizers"].l IN [k |-> "seq", ps |-> [i \in 1..Len(l) |-> SplitterOf(l[i])]]
-------------------------------------------------------- \* post-processors
\* ["text", id]
PairV(o, k) == IF Is(o, k, "l") THEN LET l == o[k].l IN IF Len(l) < 2 THEN 2 ELSE IF "x" \in DOMAIN l[1] /\ "i" \in DOMAIN l[2] THEN (IF Len(l) > 2 THEN 1 ELSE 0) ELSE 2 ELSE 2
PairOf(o, k) == [tk |-> o[k].l[1].x, id |-> o[k].l[2].i]
AllAre(l, tag) == \A i \in 1..Len(l) : tag \in DOMAIN l[i]
\* the entries of special_tokens
SpecialV(v) ==
  IF ~IsObj(v) THEN 2
  ELSE IF ~(Is(v.o, "id", "x") /\ Is(v.o, "ids", "l") /\ Is(v.o, "tokens", "l")) THEN 2
  ELSE IF ~(AllAre(v.o["ids"].l, "i") /\ AllAre(v.o["tokens"].l, "x")) THEN 2
  ELSE IF Len(v.o["ids"].l) # Len(v.o["tokens"].l) \/ v.o["ids"].l = <<>> THEN 1 ELSE 0
SpecialsOf(o) == IF Given(o, "special_tokens") THEN o["special_tokens"].m ELSE <<>>
Named(o, x) == {i \in 1..Len(SpecialsOf(o)) : SpecialsOf(o)[i][2].o["id"].x = x}
\* the pieces of a template, seqs those of its input; 1 if a token is not among the special tokens
PieceV(p, bad) ==
  IF ~IsObj(p) THEN 2
  ELSE IF Is(p.o, "Sequence", "o") THEN LET q == p.o["Sequence"].o IN Max2(NameIn(q, "id", {"A", "B"}), Need(q, "type_id", "i"))
  ELSE IF Is(p.o, "SpecialToken", "o") THEN LET q == p.o["SpecialToken"].o IN Worst(<<Need(q, "id", "x"), Need(q, "type_id", "i"), IF Is(q, "id", "x") THEN (IF q["id"].x \in bad THEN 0 ELSE 1) ELSE 2>>)
  ELSE 2
\* every sequence once
SeqIds(l) == SelectSeq([i \in 1..Len(l) |-> IF Is(l[i].o, "Sequence", "o") THEN l[i].o["Sequence"].o["id"].n ELSE ""], LAMBDA n : n # "")
PiecesV(o, k, names, want) ==
  IF ~Given(o, k) THEN 1
  ELSE IF ~Is(o, k, "l") THEN 2
  ELSE LET l == o[k].l  v == Worst([i \in 1..Len(l) |-> PieceV(l[i], names)]) IN
       IF v > 0 THEN v ELSE IF Len(SeqIds(l)) = Cardinality(want) /\ {SeqIds(l)[i] : i \in 1..Len(SeqIds(l))} = want THEN 0 ELSE 1
TemplateV(o) ==
  LET sv == IF ~Given(o, "special_tokens") THEN 0 ELSE IF Is(o, "special_tokens", "m") THEN Worst([i \in 1..Len(o["special_tokens"].m) |-> SpecialV(o["special_tokens"].m[i][2])]) ELSE 2
      names == IF sv > 0 THEN {} ELSE {SpecialsOf(o)[i][2].o["id"].x : i \in 1..Len(SpecialsOf(o))}
  IN Worst(<<sv, PiecesV(o, "single", names, {"A"}), PiecesV(o, "pair", names, {"A", "B"})>>)
PiecesOf(o, k) ==
  LET l == o[k].l IN
  [i \in 1..Len(l) |->
     IF Is(l[i].o, "Sequence", "o") THEN [k |-> "seq", s |-> IF l[i].o["Sequence"].o["id"].n = "A" THEN 0 ELSE 1, ty |-> l[i].o["Sequence"].o["type_id"].i, toks |-> <<>>]
     ELSE LET q == l[i].o["SpecialToken"].o
              e == SpecialsOf(o)[CHOOSE j \in Named(o, q["id"].x) : TRUE][2].o
          IN [k |-> "sp", s |-> 0, ty |-> q["type_id"].i, toks |-> [j \in 1..Len(e["ids"].l) |-> [id |-> e["ids"].l[j].i, tk |-> e["tokens"].l[j].x]]]]
RECURSIVE PostV(_)
PostV(d) ==
  LET ty == TypeOf(d) IN
  CASE ty = "BertProcessing" -> Worst(<<PairV(d.o, "sep"), PairV(d.o, "cls")>>)
    [] ty = "RobertaProcessing" -> Worst(<<PairV(d.o, "sep"), PairV(d.o, "cls"), Need(d.o, "trim_offsets", "b"), Need(d.o, "add_prefix_space", "b")>>)
    [] ty = "ByteLevel" -> ByteLevelV(d.o)
    [] ty = "TemplateProcessing" -> TemplateV(d.o)
    [] ty = "Sequence" -> IF Is(d.o, "processors", "l") THEN LET l == d.o["processors"].l IN Worst([i \in 1..Len(l) |-> PostV(l[i])]) ELSE 2
    [] OTHER -> 2
RECURSIVE PostOf(_)
PostOf(d) ==
  LET ty == TypeOf(d)  o == d.o IN
  CASE ty = "BertProcessing" -> [k |-> "bert", sep |-> PairOf(o, "sep"), cls |-> PairOf(o, "cls")]
    [] ty = "RobertaProcessing" -> [k |-> "roberta", sep |-> PairOf(o, "sep"), cls |-> PairOf(o, "cls"), trim |-> o["trim_offsets"].b, prefix |-> o["add_prefix_space"].b]
    [] ty = "ByteLevel" -> [k |-> "bytelevel", prefix |-> OrElse(o, "add_prefix_space", "b", 0), trim |-> OrElse(o, "trim_offsets", "b", 0)]
    [] ty = "TemplateProcessing" -> [k |-> "tpl", single |-> PiecesOf(o, "single"), pair |-> PiecesOf(o, "pair")]
    [] ty = "Sequence" -> LET l == o["processors"].l IN [k |-> "sequ", ps |-> [i \in 1..Len(l) |-> PostOf(l[i])]]
--------------------------------------------------------------- \* decoders
DelimiterKey(o) == IF Given(o, "word_delimiter_token") THEN "word_delimiter_token" ELSE "word_delimiter"
RECURSIVE DecV(_)
DecV(d) ==
  LET ty == TypeOf(d) IN
  CASE ty = "BPE" -> Need(d.o, "suffix", "x")
    [] ty = "ByteLevel" -> ByteLevelV(d.o)
    [] ty = "WordPiece" -> Worst(<<Need(d.o, "prefix", "x"), Need(d.o, "cleanup", "b")>>)
    [] ty = "Metaspace" -> MetaV(d.o)
    [] ty = "CTC" -> Worst(<<Need(d.o, "pad_token", "x"), Need(d.o, DelimiterKey(d.o), "x"), Need(d.o, "cleanup", "b")>>)
    [] ty = "Replace" -> Worst(<<PatV(d.o), Need(d.o, "content", "x")>>)
    [] ty \in {"Fuse", "ByteFallback"} -> 0
    [] ty = "Strip" -> Worst(<<Need(d.o, "content", "x"), Need(d.o, "start", "i"), Need(d.o, "stop", "i")>>)
    [] ty = "Sequence" -> IF Is(d.o, "decoders", "l") THEN LET l == d.o["decoders"].l IN Worst([i \in 1..Len(l) |-> DecV(l[i])]) ELSE 2
    [] OTHER -> 2
RECURSIVE DecOf(_)
DecOf(d) ==
  LET ty == TypeOf(d)  o == d.o IN
  CASE ty = "BPE" -> [k |-> "bpe", s |-> o["suffix"].x]
    [] ty = "ByteLevel" -> [k |-> "bytelevel"]
    [] ty = "WordPiece" -> [k |-> "wordpiece", s |-> o["prefix"].x, cl |-> o["cleanup"].b]
    [] ty = "Metaspace" -> [k |-> "meta", s |-> o["replacement"].x, pre |-> Min2(1, SchemeOf(o))]
    [] ty = "CTC" -> [k |-> "ctc", s |-> o["pad_token"].x, w |-> o[DelimiterKey(o)].x, cl |-> o["cleanup"].b]
    [] ty = "Replace" -> [k |-> "replace", p |-> PatOf(o), w |-> o["content"].x]
    [] ty = "Fuse" -> [k |-> "fuse"]
    [] ty = "ByteFallback" -> [k |-> "bytes"]
    [] ty = "Strip" -> [k |-> "strip", s |-> o["content"].x, a |-> o["start"].i, z |-> o["stop"].i]
    [] ty = "Sequence" -> LET l == o["decoders"].l IN [k |-> "seq", ds |-> [i \in 1..Len(l) |-> DecOf(l[i])]]
----------------------------------------------------------------- \* models
\* a model without a type is that of the decoder
Guess(dec) == CASE TypeOf(dec) \in {"WordPiece", "WordLevel", "Unigram"} -> TypeOf(dec) [] OTHER -> "BPE"
ModelType(o, dec) == IF Given(o, "type") THEN (IF Is(o, "type", "n") THEN o["type"].n ELSE "") ELSE Guess(dec)
\* (an object put in the place of the vocabulary happens to be one)
VocabV(o) == IF Is(o, "vocab", "o") THEN 1 ELSE IF Is(o, "vocab", "m") THEN LET m == o["vocab"].m IN IF \A i \in 1..Len(m) : "i" \in DOMAIN m[i][2] THEN (IF Cardinality({m[i][2].i : i \in 1..Len(m)}) = Len(m) THEN 0 ELSE 1) ELSE 2 ELSE 2
Listed(o) == LET m == o["vocab"].m IN [i \in 1..Len(m) |-> [t |-> m[i][1], id |-> m[i][2].i]]
\* ids from 0 on
Dense(v) == {v[i].id : i \in 1..Len(v)} = 0..(Len(v) - 1)
InIdOrder(v) == [i \in 1..Len(v) |-> v[CHOOSE j \in 1..Len(v) : v[j].id = i - 1]]
\* a merge: the text "a b", or ["a", "b"]
MergeV(d) == IF "x" \in DOMAIN d THEN 0
             ELSE IF "l" \notin DOMAIN d THEN 2
             ELSE IF Len(d.l) # 2 THEN 2
             ELSE IF ~AllAre(d.l, "x") THEN 2
             ELSE IF \E i \in 1..2 : \E j \in 1..Len(d.l[i].x) : d.l[i].x[j] = 32 THEN 1 ELSE 0
MergeOf(d) == IF "x" \in DOMAIN d THEN d.x ELSE d.l[1].x \o <<32>> \o d.l[2].x
MergesOf(o) == F!Merges(InIdOrder(Listed(o)), OrElse(o, "continuing_subword_prefix", "x", <<>>), LET l == o["merges"].l IN [i \in 1..Len(l) |-> MergeOf(l[i])], 0)
MergesV(o) == IF ~Is(o, "merges", "l") THEN 2
              ELSE LET l == o["merges"].l  v == Worst([i \in 1..Len(l) |-> MergeV(l[i])]) IN
                   IF v > 0 \/ VocabV(o) > 0 THEN v
                   ELSE IF ~Dense(Listed(o)) \/ May(o, "continuing_subword_prefix", "x") > 0 THEN 1
                   ELSE IF MergesOf(o) = <<>> THEN 2
                   ELSE IF \E i, j \in 1..Len(l) : i < j /\ MergeOf(l[i]) = MergeOf(l[j]) THEN 1 ELSE 0
ScoredV(d) == IF "l" \notin DOMAIN d THEN 2 ELSE IF Len(d.l) # 2 THEN 2 ELSE IF "x" \in DOMAIN d.l[1] /\ ("q" \in DOMAIN d.l[2] \/ "i" \in DOMAIN d.l[2]) THEN 0 ELSE 2
ScoreOf(d) == IF "q" \in DOMAIN d THEN d.q ELSE 4 * d.i
UnkV(o) == IF ~Given(o, "unk_id") THEN 0 ELSE IF ~Is(o, "unk_id", "i") THEN 2
           ELSE IF ~Is(o, "vocab", "l") THEN 2 ELSE IF o["unk_id"].i < 0 \/ o["unk_id"].i >= Len(o["vocab"].l) THEN 2 ELSE 0
\* dropout of everything is fine, of nothing may be none at all
DropV(o) == IF ~Given(o, "dropout") THEN 0 ELSE IF ~Is(o, "dropout", "q") THEN (IF Is(o, "dropout", "i") THEN 1 ELSE 2)
            ELSE IF o["dropout"].q < 0 \/ o["dropout"].q > 4 THEN 2 ELSE IF o["dropout"].q = 0 THEN 1 ELSE 0
ModelV(o, dec) ==
  LET ty == ModelType(o, dec) IN
  CASE ty = "BPE" -> Worst(<<DropV(o), May(o, "unk_token", "x"), May(o, "continuing_subword_prefix", "x"), May(o, "end_of_word_suffix", "x"), VocabV(o), MergesV(o),
                            IF VocabV(o) > 0 THEN 0 ELSE IF Dense(Listed(o)) THEN 0 ELSE 1>>)
    [] ty = "WordPiece" -> Worst(<<May(o, "unk_token", "x"), May(o, "continuing_subword_prefix", "x"), May(o, "max_input_chars_per_word", "i"), VocabV(o)>>)
    [] ty = "WordLevel" -> Worst(<<May(o, "unk_token", "x"), VocabV(o)>>)
    [] ty = "Unigram" -> Worst(<<UnkV(o), May(o, "byte_fallback", "b"), May(o, "fuse_unk", "b"), IF Is(o, "vocab", "l") THEN LET l == o["vocab"].l IN Worst([i \in 1..Len(l) |-> ScoredV(l[i])]) ELSE 2>>)
    [] OTHER -> 2
UNKText == <<91, 85, 78, 75, 93>>
AngleUnk == <<60, 117, 110, 107, 62>>
Opt1(o, k, tag) == IF Given(o, k) THEN <<o[k][tag]>> ELSE <<>>
ModelOf(o, dec) ==
  LET ty == ModelType(o, dec) IN
  CASE ty = "BPE" -> [k |-> "bpe", vocab |-> LET v == InIdOrder(Listed(o)) IN [i \in 1..Len(v) |-> v[i].t], merges |-> MergesOf(o)[1], unk |-> Opt1(o, "unk_token", "x"),
                      pre |-> OrElse(o, "continuing_subword_prefix", "x", <<>>), suf |-> OrElse(o, "end_of_word_suffix", "x", <<>>),
                      drop |-> LET q == OrElse(o, "dropout", "q", 0) IN IF q = 0 THEN 0 ELSE IF q >= 4 THEN 2 ELSE 1, cap |-> 10000]
    [] ty = "WordPiece" -> [k |-> "wp", vocab |-> Listed(o), unk |-> OrElse(o, "unk_token", "x", UNKText), pre |-> OrElse(o, "continuing_subword_prefix", "x", <<35, 35>>), max |-> OrElse(o, "max_input_chars_per_word", "i", 100)]
    [] ty = "WordLevel" -> [k |-> "wl", vocab |-> Listed(o), unk |-> LET u == OrElse(o, "unk_token", "x", <<>>) IN IF u = <<>> THEN AngleUnk ELSE u, pre |-> <<>>, max |-> 0]
    [] ty = "Unigram" -> [k |-> "uni", vocab |-> LET l == o["vocab"].l IN [i \in 1..Len(l) |-> [t |-> l[i].l[1].x, s |-> ScoreOf(l[i].l[2])]], unk |-> Opt1(o, "unk_id", "i"),
                          fuse |-> OrElse(o, "fuse_unk", "b", 1), fb |-> OrElse(o, "byte_fallback", "b", 0)]
---------------------------------------------- \* truncation, padding, tokens
Strategies == <<"LongestFirst", "OnlyFirst", "OnlySecond">>
TruncV(d) == IF ~IsObj(d) THEN 2 ELSE Worst(<<Need(d.o, "max_length", "i"), Need(d.o, "stride", "i"), NameIn(d.o, "strategy", {Strategies[i] : i \in 1..3})>>)
TruncOf(d) == [max |-> d.o["max_length"].i, stride |-> d.o["stride"].i, strat |-> (CHOOSE i \in 1..3 : Strategies[i] = d.o["strategy"].n) - 1]
FixedV(o) == IF "Fixed" \notin DOMAIN o THEN 2 ELSE IF DOMAIN o # {"Fixed"} THEN 1 ELSE IF "i" \in DOMAIN o["Fixed"] THEN 0 ELSE 1
StrategyV(o) ==
  IF ~Given(o, "strategy") THEN 1
  ELSE IF Is(o, "strategy", "x") THEN 2
  ELSE IF Is(o, "strategy", "o") THEN FixedV(o["strategy"].o)
  ELSE IF Is(o, "strategy", "n") THEN (CASE o["strategy"].n = "BatchLongest" -> 0 [] o["strategy"].n = "Fixed" -> (IF Is(o, "size", "i") THEN 0 ELSE 1) [] OTHER -> 2)
  ELSE 1
DirectionV(o) == IF ~Given(o, "direction") THEN 0 ELSE IF Is(o, "direction", "x") THEN 2 ELSE IF Is(o, "direction", "n") THEN IF o["direction"].n = "" THEN 1 ELSE NameIn(o, "direction", {"Left", "Right", "left", "right"}) ELSE 1
PadV(d) == IF ~IsObj(d) THEN 2 ELSE Worst(<<StrategyV(d.o), DirectionV(d.o), Loose(d.o, "pad_id", "i"), Loose(d.o, "pad_type_id", "i"), Loose(d.o, "pad_token", "x")>>)
PadOf(d) ==
  LET o == d.o IN
  [target |-> IF Is(o, "strategy", "o") THEN o["strategy"].o["Fixed"].i ELSE IF o["strategy"].n = "BatchLongest" THEN -1 ELSE o["size"].i,
   p |-> [id |-> OrElse(o, "pad_id", "i", 0), ty |-> OrElse(o, "pad_type_id", "i", 0), tk |-> OrElse(o, "pad_token", "x", <<91, 80, 65, 68, 93>>),
          left |-> IF Given(o, "direction") THEN B2I(o["direction"].n \in {"Left", "left"}) ELSE 0]]
TokenV(d) == IF "z" \in DOMAIN d THEN 1 ELSE IF ~IsObj(d) THEN 2
             ELSE Worst(<<May(d.o, "content", "x"), May(d.o, "id", "i"), May(d.o, "single_word", "b"), May(d.o, "lstrip", "b"), May(d.o, "rstrip", "b"), May(d.o, "normalized", "b"), May(d.o, "special", "b")>>)
TokOf(d) == LET o == d.o IN
  [toks |-> <<[c |-> OrElse(o, "content", "x", <<>>), nz |-> OrElse(o, "normalized", "b", 0), sw |-> OrElse(o, "single_word", "b", 0), ls |-> OrElse(o, "lstrip", "b", 0), rs |-> OrElse(o, "rstrip", "b", 0)]>>,
   special |-> OrElse(o, "special", "b", 0)]
--------------------------------------------------------- \* the document
Part(d, k) == IF Given(d.o, k) THEN d.o[k] ELSE [z |-> 0]
PartV(d, k, v) == IF Given(d.o, k) THEN (IF IsObj(d.o[k]) THEN v ELSE 2) ELSE 0
ModelPart(d) == IF Given(d.o, "model") THEN d.o["model"].o ELSE [zz |-> [z |-> 0]]
Verdict(d) ==
  IF ~IsObj(d) THEN 2
  ELSE IF PartV(d, "model", 0) = 2 THEN 2
  ELSE Worst(<<IF Given(d.o, "version") THEN (IF Is(d.o, "version", "n") \/ Is(d.o, "version", "x") THEN 0 ELSE 2) ELSE 0,
               ModelV(ModelPart(d), Part(d, "decoder")),
               IF Given(d.o, "normalizer") THEN NormV(d.o["normalizer"]) ELSE 0, IF Given(d.o, "pre_tokenizer") THEN PreV(d.o["pre_tokenizer"]) ELSE 0,
               IF Given(d.o, "post_processor") THEN PostV(d.o["post_processor"]) ELSE 0, IF Given(d.o, "decoder") THEN DecV(d.o["decoder"]) ELSE 0,
               IF Given(d.o, "truncation") THEN TruncV(d.o["truncation"]) ELSE 0, IF Given(d.o, "padding") THEN PadV(d.o["padding"]) ELSE 0,
               IF Given(d.o, "added_tokens") THEN (IF Is(d.o, "added_tokens", "l") THEN LET l == d.o["added_tokens"].l IN Worst([i \in 1..Len(l) |-> TokenV(l[i])]) ELSE 2) ELSE 0>>)
Described(d) ==
  [m |-> ModelOf(ModelPart(d), Part(d, "decoder")),
   added |-> IF Given(d.o, "added_tokens") THEN LET l == d.o["added_tokens"].l IN [i \in 1..Len(l) |-> TokOf(l[i])] ELSE <<>>,
   norm |-> IF Given(d.o, "normalizer") THEN <<NormOf(d.o["normalizer"])>> ELSE <<>>,
   pre |-> IF Given(d.o, "pre_tokenizer") THEN <<SplitterOf(d.o["pre_tokenizer"])>> ELSE <<>>,
   post |-> IF Given(d.o, "post_processor") THEN <<PostOf(d.o["post_processor"])>> ELSE <<>>,
   trunc |-> IF Given(d.o, "truncation") THEN <<TruncOf(d.o["truncation"])>> ELSE <<>>,
   pad |-> IF Given(d.o, "padding") THEN <<PadOf(d.o["padding"])>> ELSE <<>>,
   dec |-> IF Given(d.o, "decoder") THEN <<DecOf(d.o["decoder"])>> ELSE <<>>]
=============================================================================
