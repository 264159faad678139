------------------------------- MODULE Presets -------------------------------
(* The ready-made tokenizers of the package pretrained. Each reads files that *)
(* lie next to the code, wherever the program is run, and is put together of *)
(* known parts. files gives, for each kind,                                  *)
(*   bert, large        v  the lines of the vocabulary                       *)
(*   gpt2, rob, squad   v  the vocabulary, in the order of ids               *)
(*                      ms the lines of merges                               *)
(* A state has the tokenizers made so far, at places 1 and 2, and the        *)
(* directory the program is in, which making one does not change.            *)
EXTENDS Pipeline
F == INSTANCE ModelFiles
Kinds == {"bert", "large", "gpt2", "rob", "squad"}
UnkTok == <<91, 85, 78, 75, 93>>    \* [UNK]
SepTok == <<91, 83, 69, 80, 93>>    \* [SEP]
ClsTok == <<91, 67, 76, 83, 93>>    \* [CLS]
MaskTok == <<91, 77, 65, 83, 75, 93>>
BosTok == <<60, 115, 62>>           \* <s>
EosTok == <<60, 47, 115, 62>>       \* </s>
Hashes == <<35, 35>>
Special(t) == [toks |-> <<[c |-> t, nz |-> 0, sw |-> 0, ls |-> 0, rs |-> 0]>>, special |-> 1]
\* a line that comes twice is the later one
LastPlace(v, t) == MaxOf({i \in 1..Len(v) : v[i] = t}) - 1
Numbered(v) == SelectSeq([i \in 1..Len(v) |-> [t |-> v[i], id |-> i - 1]], LAMBDA e : e.id = LastPlace(v, e.t))
Bert(v, lower) ==
  [m |-> [k |-> "wp", vocab |-> Numbered(v), unk |-> UnkTok, pre |-> Hashes, max |-> 100],
   norm |-> <<[k |-> "bert", clean |-> 1, chinese |-> 1, lower |-> lower, accents |-> 1]>>,
   pre |-> <<[k |-> "bert"]>>,
   added |-> <<Special(MaskTok), Special(SepTok), Special(ClsTok)>>,
   post |-> <<[k |-> "bert", sep |-> [tk |-> SepTok, id |-> LastPlace(v, SepTok)], cls |-> [tk |-> ClsTok, id |-> LastPlace(v, ClsTok)]]>>,
   trunc |-> <<>>, pad |-> <<>>, dec |-> <<[k |-> "wordpiece", s |-> Hashes, cl |-> 1]>>]
ByteBpe(f, s, added, post) ==
  [m |-> [k |-> "bpe", vocab |-> f.v, merges |-> F!Merges([i \in 1..Len(f.v) |-> [t |-> f.v[i], id |-> i - 1]], <<>>, f.ms, 0)[1],
          unk |-> <<>>, pre |-> <<>>, suf |-> <<>>, drop |-> 0, cap |-> 10000],
   norm |-> <<>>, pre |-> <<[k |-> "bl", prefix |-> s.prefix, trim |-> s.trim]>>, added |-> added, post |-> <<post>>,
   trunc |-> <<>>, pad |-> <<>>, dec |-> <<[k |-> "bytelevel"]>>]
Made(files, s) ==
  LET f == files[s.k] IN
  CASE s.k = "bert" -> Bert(f.v, 1)
    [] s.k = "large" -> Bert(f.v, 0)
    [] s.k = "gpt2" -> ByteBpe(f, s, <<>>, [k |-> "bytelevel", prefix |-> s.prefix, trim |-> s.trim])
    [] s.k \in {"rob", "squad"} ->
         ByteBpe(f, s, <<Special(BosTok), Special(EosTok)>>,
                 [k |-> "roberta", sep |-> [tk |-> EosTok, id |-> 2], cls |-> [tk |-> BosTok, id |-> 0], trim |-> s.trim, prefix |-> s.prefix])
\* ------------------------------------------------------------------- steps
None == [none |-> 0]
PresetStart == << None, None >>
PresetRet(tks, s) == IF s.a = "make" THEN [err |-> 0, moved |-> 0] ELSE PipeRet(tks[s.on], s)
PresetNext(files, tks, s) == [tks EXCEPT ![s.on] = IF s.a = "make" THEN Assemble(Made(files, s)) ELSE PipeNext(@, s)]
PresetAgrees(s, exp, o) == IF s.a = "make" THEN (IF "ret" \in DOMAIN o THEN exp = o.ret ELSE FALSE) ELSE AgreesStep(s, exp, o)
=============================================================================
