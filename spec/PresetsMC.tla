------------------------------ MODULE PresetsMC ------------------------------
(* Exhaustive small scopes of the ready-made tokenizers (T06): each of them, *)
(* with every option, alone with all short texts; and two in one program.    *)
EXTENDS Presets
VARIABLES tks, made, hist, k
vars == <<tks, made, hist, k>>
Big == IOEnv.TIER = "thorough"
a == 97  b == 98  A == 65  sp == 32  eac == 233  dot == 46  G == 288  C3 == 195  A9 == 169  han == 20013
BertFile == [v |-> <<UnkTok, ClsTok, SepTok, <<a>>, <<b>>, <<A>>, <<a, b>>, <<35, 35, b>>, <<35, 35, a, b>>, <<eac>>, <<dot>>, <<han>>, <<101>> >>, ms |-> <<>>]
LargeFile == [v |-> <<MaskTok, <<a>>, SepTok, UnkTok, <<A, b>>, <<35, 35, b>>, ClsTok, <<35, 35, a>>, <<101>> >>, ms |-> <<>>]
BpeFile == [v |-> <<BosTok, <<63>>, EosTok, <<a>>, <<b>>, <<A>>, <<G>>, <<C3>>, <<A9>>, <<dot>>, <<G, a>>, <<C3, A9>>, <<a, b>>, <<G, a, b>> >>,
            ms |-> << <<C3, 32, A9>>, <<G, 32, a>>, <<a, 32, b>>, <<G, a, 32, b>> >>]
Files == [bert |-> BertFile, large |-> LargeFile, gpt2 |-> BpeFile, rob |-> BpeFile, squad |-> BpeFile]
Options == {[k |-> x, prefix |-> 0, trim |-> 0] : x \in {"bert", "large"}} \cup [k : {"gpt2", "rob", "squad"}, prefix : {0, 1}, trim : {0, 1}]
Make(on, o) == [a |-> "make", on |-> on, k |-> o.k, prefix |-> o.prefix, trim |-> o.trim]
Raw(t) == [k |-> "raw", s |-> t]
Enc1(on, in, add) == [a |-> "enc", on |-> on, in |-> in, add |-> add, chars |-> 0]
Dec1(on, ids, skip) == [a |-> "dec", on |-> on, ids |-> ids, skip |-> skip]
Texts == SeqsUpTo({a, b, A, sp, eac}, IF Big THEN 5 ELSE 3) \cup {BosTok \o <<a>> \o EosTok, <<a>> \o MaskTok \o <<sp, b>> \o SepTok, ClsTok, <<a, dot, han, b>>, <<sp, a, b, sp, sp, a, b, dot, sp>>}
Pairs == {<<Raw(x), Raw(y)>> : x \in {<<>>, <<sp, a, b>>, <<eac, sp>>}, y \in {<<>>, <<a, b, a>>, SepTok}} \cup {<<[k |-> "words", s |-> <<t, <<sp, a, sp>> >>]>> : t \in {<<>>, <<eac>>, <<a, b>>}}
\* alone: made, then one text (or pair) encoded, and what comes of it decoded
\* two: the second is made between an encoding of the first and another
Ways == {<<1, o, in>> : o \in Options, in \in {<<Raw(t)>> : t \in Texts} \cup Pairs} \cup {<<2, o, p>> : o \in Options, p \in Options}
Idle == [none |-> 0]
Init == \E w \in Ways : tks = PresetStart /\ made = << Idle, Idle >> /\ k = 0 /\ hist = [w |-> w, steps |-> <<>>, obs |-> <<>>]
IdsSeen == LET r == hist.obs[2].ret IN IF "e" \in DOMAIN r THEN [i \in 1..Len(r.e.t) |-> r.e.t[i].id] ELSE <<>>
Plan1 == <<Make(1, hist.w[2]), Enc1(1, hist.w[3], 0), Enc1(1, hist.w[3], 1)>>
Mixed == <<sp, a, b, eac, sp>>
Plan2 == <<Make(1, hist.w[2]), Enc1(1, <<Raw(Mixed)>>, 1), Make(2, hist.w[3]), Enc1(1, <<Raw(Mixed)>>, 1), Enc1(2, <<Raw(Mixed)>>, 1), [a |-> "list", on |-> 1], [a |-> "list", on |-> 2]>>
Choices == IF hist.w[1] = 1 THEN (IF k < 3 THEN {Plan1[k + 1]} ELSE IF k = 3 THEN {Dec1(1, IdsSeen, s) : s \in {0, 1}} ELSE {})
           ELSE IF k < Len(Plan2) THEN {Plan2[k + 1]} ELSE {}
Next == \E s \in Choices :
  /\ hist' = [hist EXCEPT !.steps = Append(@, s), !.obs = Append(@, [ret |-> PresetRet(tks, s)])]
  /\ tks' = PresetNext(Files, tks, s)
  /\ made' = IF s.a = "make" THEN [made EXCEPT ![s.on] = s] ELSE made
  /\ k' = k + 1
Spec == Init /\ [][Next]_vars
Emit == Choices = {} => PrintT("CASE" \o ToJson([op |-> "preset", files |-> Files, steps |-> hist.steps, exp |-> [obs |-> hist.obs]]))
----------------------------------------------------- \* property predicates
Ended == hist.steps[k]
Ret == hist.obs[k].ret
O == hist.w[2]
ByWords == {"bert", "large"}
HasE == k > 0 /\ Ended.a = "enc" /\ "e" \in DOMAIN Ret
Toks(e) == [i \in 1..Len(e.t) |-> e.t[i].tk]
\* with special tokens added: they are around what there is without
Around ==
  hist.w[1] = 1 /\ k = 3 /\ HasE /\ Len(Ended.in) = 1 =>
    LET was == Toks(hist.obs[2].ret.e)  now == Toks(Ret.e) IN
    CASE O.k \in ByWords -> now = <<ClsTok>> \o was \o <<SepTok>>
      [] O.k = "gpt2" -> now = was
      [] OTHER -> now = <<BosTok>> \o was \o <<EosTok>>
\* offsets without spaces if they are to be trimmed (but the first one, which
\* may have been added), the whole text if not
Covered(t, e) == LET n == Len(e.t) IN n = 0 \/ (e.t[1].o1 = 0 /\ e.t[n].o2 = Bytes(t) /\ \A i \in 1..(n - 1) : e.t[i].o2 >= e.t[i + 1].o1)
SpaceAt(t, p) == \E c \in 1..Len(t) : PosOf(t, c - 1) = p /\ t[c] = sp
Bare(t, e) == \A i \in 1..Len(e.t) : e.t[i].o1 = e.t[i].o2 \/ ~SpaceAt(t, e.t[i].o1) \/ (O.prefix = 1 /\ e.t[i].o1 = 0)
\* a space is added in front of a text that has none, and seen by the decoder
RoundTrip ==
  hist.w[1] = 1 /\ k = 4 /\ O.k \notin ByWords /\ Ended.skip = 0 /\ Len(hist.w[3]) = 1 /\ hist.w[3][1].k = "raw" /\ "e" \in DOMAIN hist.obs[2].ret =>
    LET t == hist.w[3][1].s IN \/ Ret = t \/ (O.prefix = 1 /\ Ret = <<sp>> \o t)
                               \/ \E i \in 1..Len(t) : t[i] \in {60, 91}    \* text of special tokens is split off
Offsets ==
  hist.w[1] = 1 /\ k = 3 /\ HasE /\ O.k \notin ByWords /\ Len(Ended.in) = 1 /\ Ended.in[1].k = "raw" =>
    LET t == Ended.in[1].s  e == hist.obs[2].ret.e  f == [Ret.e EXCEPT !.t = SelectSeq(@, LAMBDA x : x.sp = 0)] IN
    IF O.trim = 1 THEN Bare(t, f) ELSE Covered(t, f)
Holds == /\ Around /\ RoundTrip /\ Offsets
         /\ \A i \in 1..2 : made[i] # Idle => tks[i] = Assemble(Made(Files, made[i]))
=============================================================================
