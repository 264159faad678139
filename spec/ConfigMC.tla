----------------------------- MODULE ConfigMC -----------------------------
(* Every kind of part of a configuration, with every option changed, for T05. *)
EXTENDS Config
VARIABLES doc, slot, edits, phase, tk, hist
vars == <<doc, slot, edits, phase, tk, hist>>
Big == IOEnv.TIER = "thorough"
a == 97  b == 98  A == 65  sp == 32  eac == 233  comma == 44  hash == 35  under == 9601  G == 288  LB == 91  RB == 93  one == 49
----------------------------------------------------------- \* documents
T(s) == [x |-> s]
N(n) == [n |-> n]
I(i) == [i |-> i]
Yes == [b |-> 1]
No == [b |-> 0]
L(l) == [l |-> l]
O(o) == [o |-> o]
Null == [z |-> 0]
Re == [re |-> [n |-> "plus", l |-> [n |-> "set", cs |-> <<a, comma>>, neg |-> 0]]]
VocabM(ts) == [m |-> [i \in 1..Len(ts) |-> <<ts[i], I(i - 1)>>]]
UNK == <<LB, 85, RB>>
WordTexts == <<UNK, <<a>>, <<a, b>>, <<hash, hash, b>>, <<under, a>>, <<G, a>>, <<eac>>, <<A, b>>, UNKText, <<hash, hash, a>> >>
DocWl == O([type |-> N("WordLevel"), unk_token |-> T(UNK), vocab |-> VocabM(WordTexts)])
DocWp == O([type |-> N("WordPiece"), unk_token |-> T(UNK), continuing_subword_prefix |-> T(<<hash, hash>>), max_input_chars_per_word |-> I(4), vocab |-> VocabM(WordTexts)])
DocBpe == O([type |-> N("BPE"), dropout |-> Null, unk_token |-> T(<<63>>), continuing_subword_prefix |-> Null, end_of_word_suffix |-> Null, fuse_unk |-> No, byte_fallback |-> No,
             vocab |-> VocabM(<< <<63>>, <<a>>, <<b>>, <<a, b>>, <<G>>, <<G, a>>, <<a, b, a>> >>), merges |-> L(<<T(<<a, sp, b>>), L(<<T(<<G>>), T(<<a>>)>>), T(<<a, b, sp, a>>)>>)])
DocBpe2 == O([dropout |-> [q |-> 4], unk_token |-> T(<<a>>), continuing_subword_prefix |-> T(<<hash>>), end_of_word_suffix |-> T(<<comma>>),
              vocab |-> VocabM(<< <<a>>, <<hash, b>>, <<hash, b, comma>>, <<a, b, comma>> >>), merges |-> L(<<L(<<T(<<a>>), T(<<hash, b, comma>>)>>)>>)])
Sc(t, q) == L(<<T(t), [q |-> q]>>)
DocUni == O([type |-> N("Unigram"), unk_id |-> I(0), byte_fallback |-> No, vocab |-> L(<<Sc(<<63>>, 0), Sc(<<a>>, -10), Sc(<<b>>, -11), Sc(<<a, b>>, -17), Sc(<<under, a>>, -5), Sc(<<60, 48, 120, 50, 67, 62>>, -7)>>)])
\* scores that need more than 24 bits
Fine(x, y) == O([type |-> N("Unigram"), unk_id |-> I(0), vocab |-> L(<<Sc(<<63>>, 0), Sc(<<a>>, -40000000), Sc(<<b>>, -40000000), Sc(<<a, b>>, x), Sc(<<b, a>>, y)>>)])
Models == <<Fine(-40000000, -40000001), Fine(-40000001, -40000000), DocWl, DocWp, DocBpe, DocBpe2, DocUni, O([type |-> N("Unigram"), vocab |-> L(<<Sc(<<a>>, 4), Sc(<<comma>>, 0)>>), unk_id |-> Null, fuse_unk |-> No, byte_fallback |-> Yes])>>
Bert(c, h, s, l) == O([type |-> N("BertNormalizer"), clean_text |-> c, handle_chinese_chars |-> h, strip_accents |-> s, lowercase |-> l])
Lower1 == O([type |-> N("Lowercase")])
Rpl(p, c) == O([type |-> N("Replace"), pattern |-> O(p), content |-> T(c)])
Smap(v) == O([type |-> N("Precompiled"), precompiled_charsmap |-> v])
Norms == <<Bert(Yes, No, Null, Yes), Bert(No, Yes, Yes, No), Bert(Yes, Yes, No, Yes), O([type |-> N("Strip"), strip_left |-> Yes, strip_right |-> No]), O([type |-> N("StripNormalizer"), strip_right |-> Yes]),
           O([type |-> N("StripAccents")]), O([type |-> N("NFC")]), O([type |-> N("NFD")]), O([type |-> N("NFKC")]), O([type |-> N("NFKD")]), Lower1,
           Smap([sm |-> << <<<<a>>, <<b>>>>, <<<<eac, sp>>, <<>>>>, <<<<sp>>, <<>>>>, <<<<b>>, <<a, comma>>>> >>]), Smap([sm |-> <<>>]),
           Rpl([String |-> T(<<a, b>>)], <<under>>), Rpl([Regex |-> Re], <<b>>), O([type |-> N("Prepend"), prepend |-> T(<<under>>)]),
           O([type |-> N("Sequence"), normalizers |-> L(<<O([type |-> N("NFD")]), O([type |-> N("StripAccents")]), O([type |-> N("Sequence"), normalizers |-> L(<<Lower1>>)])>>)])>>
Spl(p, be, inv) == O([type |-> N("Split"), pattern |-> O(p), behavior |-> N(be), invert |-> inv])
Pres == <<O([type |-> N("BertPreTokenizer")]), O([type |-> N("Whitespace")]), O([type |-> N("WhitespaceSplit")]), O([type |-> N("UnicodeScripts")]),
          O([type |-> N("ByteLevel"), add_prefix_space |-> Yes, trim_offsets |-> Yes]), O([type |-> N("ByteLevel"), add_prefix_space |-> No, trim_offsets |-> Yes, use_regex |-> Yes]),
          O([type |-> N("Delimiter"), delimiter |-> T(<<a>>)]), O([type |-> N("Metaspace"), replacement |-> T(<<under>>), add_prefix_space |-> Yes]),
          O([type |-> N("Digits"), individual_digits |-> Yes]), O([type |-> N("Digits"), individual_digits |-> No])>>
        \o [i \in 1..6 |-> O([type |-> N("Metaspace"), replacement |-> T(<<under>>), prepend_scheme |-> N(<<"always", "first", "never", "First", "Never", "ALWAYS">>[i]), add_prefix_space |-> <<Yes, No>>[1 + (i % 2)]])]
        \o [i \in 1..5 |-> O([type |-> N("Punctuation"), behavior |-> N(Behaviours[i])])]
        \o [i \in 1..5 |-> Spl([String |-> T(<<a>>)], Behaviours[i], No)] \o [i \in 1..5 |-> Spl([Regex |-> Re], Behaviours[i], IF i % 2 = 1 THEN Yes ELSE No)]
        \o <<O([type |-> N("Sequence"), pretokenizers |-> L(<<O([type |-> N("WhitespaceSplit")]), O([type |-> N("Punctuation"), behavior |-> N("Isolated")]), O([type |-> N("Sequence"), pretokenizers |-> L(<<>>)])>>)])>>
Two(t, id) == L(<<T(t), I(id)>>)
Sq(n, ty) == O([Sequence |-> O([id |-> N(n), type_id |-> I(ty)])])
Sp(x, ty) == O([SpecialToken |-> O([id |-> T(x), type_id |-> I(ty)])])
C1 == <<67>>
S1 == <<83>>
Spec1(x, ids) == <<x, O([id |-> T(x), ids |-> L([i \in 1..Len(ids) |-> I(ids[i])]), tokens |-> L([i \in 1..Len(ids) |-> T(<<LB, ids[i] % 100, RB>>)])])>>
Tpl1 == O([type |-> N("TemplateProcessing"), single |-> L(<<Sp(C1, 2), Sq("A", 1), Sp(S1, 0)>>), pair |-> L(<<Sq("B", 1), Sp(S1, 1), Sq("A", 0)>>),
           special_tokens |-> [m |-> <<Spec1(C1, <<9067>>), Spec1(S1, <<9083, 9084>>)>>]])
ByteLevel1 == O([type |-> N("ByteLevel"), add_prefix_space |-> No, trim_offsets |-> Yes])
Posts == <<O([type |-> N("BertProcessing"), sep |-> Two(<<LB, S1[1], RB>>, 9083), cls |-> Two(<<LB, C1[1], RB>>, 9067)]),
           O([type |-> N("RobertaProcessing"), sep |-> Two(<<LB, S1[1], RB>>, 9083), cls |-> Two(<<LB, C1[1], RB>>, 9067), trim_offsets |-> Yes, add_prefix_space |-> No]),
           O([type |-> N("RobertaProcessing"), sep |-> Two(<<LB, S1[1], RB>>, 9083), cls |-> Two(<<LB, C1[1], RB>>, 9067), trim_offsets |-> No, add_prefix_space |-> Yes]),
           ByteLevel1, Tpl1, O([type |-> N("TemplateProcessing"), single |-> L(<<Sq("A", 2)>>), pair |-> L(<<Sq("A", 0), Sq("B", 2)>>)]),
           O([type |-> N("Sequence"), processors |-> L(<<ByteLevel1, Tpl1>>)])>>
Meta1(s) == O([type |-> N("Metaspace"), replacement |-> T(<<under>>), prepend_scheme |-> N(s)])
Decs == <<O([type |-> N("BPE"), suffix |-> T(<<a>>)]), O([type |-> N("ByteLevel"), add_prefix_space |-> Yes, trim_offsets |-> No]), O([type |-> N("WordPiece"), prefix |-> T(<<hash, hash>>), cleanup |-> Yes]),
          O([type |-> N("WordPiece"), prefix |-> T(<<under>>), cleanup |-> No]), Meta1("always"), Meta1("first"), Meta1("never"), O([type |-> N("Metaspace"), replacement |-> T(<<under>>), add_prefix_space |-> Yes]),
          O([type |-> N("Metaspace"), replacement |-> T(<<under>>), add_prefix_space |-> No]),
          O([type |-> N("CTC"), pad_token |-> T(<<a>>), word_delimiter_token |-> T(<<eac>>), cleanup |-> Yes]), O([type |-> N("CTC"), pad_token |-> T(<<eac>>), word_delimiter |-> T(<<a>>), cleanup |-> No]),
          Rpl([String |-> T(<<under>>)], <<sp>>), Rpl([Regex |-> Re], <<b>>), O([type |-> N("Fuse")]), O([type |-> N("ByteFallback")]), O([type |-> N("Strip"), content |-> T(<<a>>), start |-> I(1), stop |-> I(0)]),
          O([type |-> N("Strip"), content |-> T(<<b>>), start |-> I(0), stop |-> I(2)]),
          O([type |-> N("Sequence"), decoders |-> L(<<Rpl([String |-> T(<<under>>)], <<sp>>), O([type |-> N("Fuse")]), O([type |-> N("Strip"), content |-> T(<<sp>>), start |-> I(1), stop |-> I(0)])>>)])>>
Truncs == <<O([max_length |-> I(5), stride |-> I(0), strategy |-> N("LongestFirst"), direction |-> N("Right")]), O([max_length |-> I(7), stride |-> I(1), strategy |-> N("LongestFirst")]),
            O([max_length |-> I(9), stride |-> I(2), strategy |-> N("OnlyFirst")]), O([max_length |-> I(8), stride |-> I(0), strategy |-> N("OnlySecond")])>>
Pd(st, d) == O([strategy |-> st, direction |-> N(d), pad_to_multiple_of |-> Null, pad_id |-> I(7000), pad_type_id |-> I(3), pad_token |-> T(<<80>>)])
Pads == <<Pd(N("BatchLongest"), "Right"), Pd(O([Fixed |-> I(16)]), "Left"), Pd(N("BatchLongest"), "left"), O([strategy |-> N("Fixed"), size |-> I(17), direction |-> N("right"), pad_id |-> I(1), pad_type_id |-> I(1), pad_token |-> T(<<80, 81>>)])>>
AddTok1(id, c, special, nz, sw, ls, rs) == O([id |-> I(id), content |-> T(c), special |-> special, normalized |-> nz, single_word |-> sw, lstrip |-> ls, rstrip |-> rs])
Addeds == <<L(<<AddTok1(10, <<LB, S1[1], RB>>, Yes, No, No, No, Yes), AddTok1(11, <<A, b>>, No, Yes, No, Yes, No), AddTok1(1, <<a>>, No, Yes, Yes, No, No), AddTok1(12, <<comma, sp>>, Yes, No, No, No, No), AddTok1(13, <<eac>>, No, No, No, No, No)>>)>>
\* the parts that are not looked at
Plain == [version |-> N("1.0"), model |-> DocWl, added_tokens |-> L(<<>>), normalizer |-> Null, pre_tokenizer |-> O([type |-> N("WhitespaceSplit")]), post_processor |-> Null, decoder |-> Null, truncation |-> Null, padding |-> Null]
Parts == [model |-> Models, added_tokens |-> Addeds, normalizer |-> Norms, pre_tokenizer |-> Pres, post_processor |-> Posts, decoder |-> Decs, truncation |-> Truncs, padding |-> Pads]
With(k, p) == [Plain EXCEPT ![k] = p]
\* a model without a type
Untyped == {[With("model", O([unk_token |-> T(UNK), vocab |-> VocabM(WordTexts)])) EXCEPT !.decoder = Decs[d]] : d \in {3, 4}}
           \cup {[With("model", O([unk_token |-> T(<<63>>), vocab |-> DocBpe.o.vocab, merges |-> DocBpe.o.merges])) EXCEPT !.decoder = d] : d \in {Decs[1], Decs[2], Decs[14], Null}}
------------------------------------------------------------ \* changes
\* the places in a value
RECURSIVE Places(_)
Below(d, e) == {<<e>>} \cup {<<e>> \o p : p \in Places(d)}
Places(d) ==
  IF IsObj(d) THEN UNION {Below(d.o[k], [k |-> k, i |-> 0]) : k \in DOMAIN d.o}
  ELSE IF "l" \in DOMAIN d THEN UNION {Below(d.l[i], [k |-> "", i |-> i]) : i \in 1..Len(d.l)}
  ELSE IF "m" \in DOMAIN d THEN UNION {Below(d.m[i][2], [k |-> "", i |-> i]) : i \in 1..Len(d.m)}
  ELSE {}
RECURSIVE ValueAt(_, _)
ValueAt(d, p) == IF p = <<>> THEN d ELSE ValueAt(IF IsObj(d) THEN d.o[p[1].k] ELSE IF "l" \in DOMAIN d THEN d.l[p[1].i] ELSE d.m[p[1].i][2], Tail(p))
RECURSIVE Put(_, _, _)
Put(d, p, v) ==
  IF p = <<>> THEN v
  ELSE IF IsObj(d) THEN O([k \in DOMAIN d.o |-> IF k = p[1].k THEN Put(d.o[k], Tail(p), v) ELSE d.o[k]])
  ELSE IF "l" \in DOMAIN d THEN L([i \in 1..Len(d.l) |-> IF i = p[1].i THEN Put(d.l[i], Tail(p), v) ELSE d.l[i]])
  ELSE [m |-> [i \in 1..Len(d.m) |-> IF i = p[1].i THEN <<d.m[i][1], Put(d.m[i][2], Tail(p), v)>> ELSE d.m[i]]]
Without(d, p) == LET q == SubSeq(p, 1, Len(p) - 1)  w == ValueAt(d, q) IN Put(d, q, O([k \in (DOMAIN w.o) \ {p[Len(p)].k} |-> w.o[k]]))
Named1(d, p) == "n" \in DOMAIN ValueAt(d, p)
InObj(d, p) == p[Len(p)].k # ""
BadMaps(d, p) == IF "sm" \in DOMAIN ValueAt(d, p) THEN {[smbad |-> <<ValueAt(d, p).sm, how>>] : how \in 0..5} ELSE {}
Others == {Null, I(3), Yes, T(<<113>>), L(<<>>), O([zz |-> Null])}
Extra(d, p) == Put(d, p, O([k \in DOMAIN ValueAt(d, p).o \cup {"zz"} |-> IF k = "zz" THEN I(0) ELSE ValueAt(d, p).o[k]]))
------------------------------------------------------------ \* the machine
RawIn(t) == <<[k |-> "raw", s |-> t]>>
TextA == <<a, b, sp, A, b, comma, a, LB, S1[1], RB, sp, eac, a, one, one, comma, sp>>
TextB == <<sp, a, b, sp, a, b, a>>
Asks == <<[a |-> "enc", in |-> RawIn(TextA), add |-> 1, chars |-> 0], [a |-> "batch", ins |-> <<RawIn(TextB), RawIn(TextA) \o RawIn(TextB)>>, add |-> 1],
          [a |-> "dec", ids |-> <<4, 1, 3, 2, 9, 4, 6, 1, 5, 2>>, skip |-> 0], [a |-> "list"]>>
AsksOf(s) == CASE s \in {"normalizer", "pre_tokenizer", "post_processor"} -> SubSeq(Asks, 1, 2) [] s \in {"truncation", "padding"} -> <<Asks[2]>> [] s = "decoder" -> <<Asks[3]>> [] OTHER -> Asks
Init == /\ \/ \E s \in DOMAIN Parts : slot = s /\ \E i \in 1..Len(Parts[s]) : doc = O(With(s, Parts[s][i]))
           \/ slot = "" /\ doc \in {O(d) : d \in Untyped} \cup {O(Plain)}
        /\ edits = 0 /\ phase = "doc" /\ tk = <<>> /\ hist = [steps |-> <<>>, obs |-> <<>>]
Edit == /\ phase = "doc" /\ edits < (IF Big THEN 2 ELSE 1) /\ slot # "" /\ "z" \notin DOMAIN Part(doc, slot)
        /\ \E p \in {<<>>} \cup (IF edits = 1 /\ Part(doc, slot) = Null THEN {} ELSE Places(Part(doc, slot))) : LET q == <<[k |-> slot, i |-> 0]>> \o p IN
             \/ \E v \in (IF edits = 1 THEN {Null, T(<<113>>)} ELSE Others) \cup (IF Named1(doc, q) THEN {N("Zzyzx"), N("Sequence")} ELSE {}) \cup BadMaps(doc, q) : doc' = Put(doc, q, v)
             \/ InObj(doc, q) /\ doc' = Without(doc, q)
             \/ IsObj(ValueAt(doc, q)) /\ doc' = Extra(doc, q)
        /\ edits' = edits + 1 /\ UNCHANGED <<slot, phase, tk, hist>>
Odd == {Null, L(<<>>), T(<<113>>), I(3), Yes, O([zz |-> Null]), [none |-> 0]} \cup {[cut |-> <<doc, n>>] : n \in {0, 1, 7, 500, 1003}}
Strange == phase = "doc" /\ edits = 0 /\ doc = O(Plain) /\ doc' \in Odd /\ edits' = 9 /\ UNCHANGED <<slot, phase, tk, hist>>
Load == /\ phase = "doc"
        /\ LET v == Verdict(doc) IN
           IF v = 0 THEN phase' = "ask" /\ tk' = Assemble(Described(doc)) /\ hist' = [hist EXCEPT !.obs = <<[ret |-> [err |-> 0]]>>]
           ELSE phase' = "end" /\ tk' = <<>> /\ hist' = [hist EXCEPT !.obs = IF v = 1 THEN <<>> ELSE <<[ret |-> [err |-> 1]]>>]
        /\ UNCHANGED <<doc, slot, edits>>
Ask == /\ phase = "ask"
       /\ IF Len(hist.steps) = Len(AsksOf(slot)) THEN phase' = "end" /\ UNCHANGED <<tk, hist>>
          ELSE LET s == AsksOf(slot)[Len(hist.steps) + 1] IN
               /\ hist' = [steps |-> Append(hist.steps, s), obs |-> Append(hist.obs, [ret |-> PipeRet(tk, s)])]
               /\ tk' = PipeNext(tk, s) /\ UNCHANGED phase
       /\ UNCHANGED <<doc, slot, edits>>
Next == Edit \/ Strange \/ Load \/ Ask
Spec == Init /\ [][Next]_vars
\* what has no prediction is left out
Certain(x) == IF x.s.a \in {"enc", "batch"} THEN "any" \notin DOMAIN x.o.ret ELSE TRUE
Emit == phase = "end" /\ hist.obs # <<>> =>
  LET xs == SelectSeq([i \in 1..Len(hist.steps) |-> [s |-> hist.steps[i], o |-> hist.obs[i + 1]]], Certain)
  IN PrintT("CASE" \o ToJson([op |-> "load", doc |-> doc, steps |-> [i \in 1..Len(xs) |-> xs[i].s], exp |-> [obs |-> <<hist.obs[1]>> \o [i \in 1..Len(xs) |-> xs[i].o]]]))
----------------------------------------------------- \* property predicates
\* an option that is null is as good as one that is not there
NullIsNone == phase = "doc" /\ slot # "" /\ IsObj(doc) =>
  IF Given(doc.o, slot) THEN
    \A p \in Places(Part(doc, slot)) : LET q == <<[k |-> slot, i |-> 0]>> \o p IN
      ValueAt(doc, q) = Null /\ InObj(doc, q) /\ p[Len(p)].k # "Fixed" => LET w == Without(doc, q) IN
        (Verdict(w) = 0 <=> Verdict(doc) = 0) /\ (Verdict(doc) = 0 => Described(w) = Described(doc))
  ELSE TRUE
\* what is unknown is reported, wherever it is
Unknown == phase = "doc" /\ slot # "" /\ IsObj(doc) =>
  IF Given(doc.o, slot) THEN \A p \in Places(Part(doc, slot)) : LET v == ValueAt(Part(doc, slot), p) IN
       IF "n" \in DOMAIN v THEN v.n = "Zzyzx" /\ p[Len(p)].k # "direction" => Verdict(doc) = 2 ELSE TRUE
  ELSE TRUE
Holds == NullIsNone /\ Unknown /\ (edits = 0 /\ phase = "doc" => Verdict(doc) = 0)
=============================================================================
