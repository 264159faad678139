---------------------------- MODULE AddedVocabMC ----------------------------
(* Exhaustive small scopes of the added vocabulary for V01 and V02.          *)
EXTENDS AddedVocab

VARIABLES av, prev, hist, k
vars == <<av, prev, hist, k>>
Prop == IOEnv.PROP
Big == IOEnv.TIER = "thorough"
a == 97  b == 98  A == 65  sp == 32  eac == 233  nbsp == 160  under == 95  acute == 769

Tok(c, nz, sw, ls, rs) == [c |-> c, nz |-> nz, sw |-> sw, ls |-> ls, rs |-> rs]
Plain(c) == Tok(c, 1, 0, 0, 0)
Raw(c) == Tok(c, 0, 0, 0, 0)
E(t, id) == [t |-> t, id |-> id]
AddOp(toks, special) == [a |-> "add", toks |-> toks, special |-> special]

----------------------------------------------- \* V01: histories of additions
Models1 == {<<>>, <<E(<<a>>, 0), E(<<b>>, 1)>>, <<E(<<a>>, 0), E(<<b>>, 4)>>, <<E(<<b>>, 1), E(<<A>>, 2), E(<<a>>, 0)>>}
Lists1 == {<<>>, <<Plain(<<a>>)>>, <<Plain(<<eac>>)>>, <<Raw(<<A>>), Plain(<<>>), Plain(<<eac>>)>>, <<Plain(<<b, b>>), Plain(<<b, b>>), Raw(<<sp>>)>>}
Query1 == [a |-> "look", toks |-> << <<>>, <<a>>, <<b>>, <<A>>, <<eac>>, <<b, b>>, <<sp>> >>, ids |-> [i \in 1..10 |-> i - 2]]
Steps1(d) == IF d % 3 = 0 THEN {AddOp(l, s) : l \in Lists1, s \in {0, 1}} ELSE IF d % 3 = 1 THEN {[a |-> "list"]} ELSE {Query1}
Depth1 == IF Big THEN 12 ELSE 9

------------------------------------------- \* V02: what is found in a text
C2 == {<<a>>, <<a, b>>, <<b>>, <<sp, a>>, <<b, a>>}
Toks2 == {Plain(c) : c \in C2} \cup {Raw(c) : c \in {<<a>>, <<a, b>>, <<b, sp>>}}
         \cup {Tok(<<a>>, 1, w, l, r) : w \in {0, 1}, l \in {0, 1}, r \in {0, 1}} \cup {Tok(<<b>>, 0, 1, 1, 0), Tok(<<sp>>, 1, 0, 1, 1), Tok(<<A, b>>, 1, 0, 0, 0), Tok(<<A>>, 1, 1, 0, 1)}
Lower2 == [k |-> "lower"]
Words2 == {Tok(<<a>>, z, 1, 0, 0) : z \in {0, 1}} \cup {Tok(<<eac, a>>, 1, 1, 1, 1), Tok(<<91, a, 93>>, 0, 1, 0, 0), Tok(<<45, a>>, 1, 1, 0, 0)}
Edges2 == {sp, b, eac, under, acute, 45, 49, 91, 8205, 178, nbsp}
\* (what is registered as special, as ordinary, normalizer, texts)
Short == SeqsUpTo({a, b, sp}, IF Big THEN 4 ELSE 3)
Sets2 ==
  {[s |-> <<>>, o |-> <<x, y>>, n |-> <<>>, ts |-> Short] : x \in Toks2, y \in Toks2}
  \cup {[s |-> <<x>>, o |-> <<y>>, n |-> <<Lower2>>, ts |-> SeqsUpTo({a, A, b}, 3) \cup {<<A, sp, A>>, <<b, A, b, a>>}] : x \in {Raw(<<a>>), Plain(<<A>>), Raw(<<A, b>>), Tok(<<b>>, 0, 1, 1, 1)}, y \in {Plain(<<A, b>>), Plain(<<b, a>>), Raw(<<a>>), Tok(<<A>>, 1, 1, 1, 0)}}
  \cup {[s |-> <<>>, o |-> <<x>>, n |-> <<>>, ts |-> {<<l>> \o x.c \o <<r>> : l \in Edges2, r \in Edges2} \cup {x.c, x.c \o x.c, x.c \o <<sp>> \o x.c}] : x \in Words2}
  \cup {[s |-> <<Raw(<<a, b>>)>>, o |-> <<Plain(<<b, a>>), Plain(<<a, b, a>>), Plain(<<a>>)>>, n |-> n, ts |-> SeqsUpTo({a, b}, IF Big THEN 8 ELSE 6)] : n \in {<<>>, <<[k |-> "prepend", s |-> <<b>>]>>}}
  \cup {[s |-> <<>>, o |-> <<Tok(<<a>>, 1, 0, 1, 1), Tok(<<b>>, 1, 0, 0, 1)>>, n |-> <<>>, ts |-> SeqsUpTo({a, b, sp, nbsp}, 4)]}
  \cup {[s |-> <<>>, o |-> <<Plain(<<sp>>), Plain(<<a>>)>>, n |-> <<[k |-> "strip", l |-> 1, r |-> 1]>>, ts |-> SeqsUpTo({a, sp}, 3)]}
\* through the whole tokenizer
Whole2 == {[s |-> <<Raw(<<91, 93>>)>>, o |-> <<Tok(<<a, b>>, 1, 1, 1, 0), Plain(<<eac>>)>>, n |-> n, ts |-> {t \o u : t \in {<<91, 93>>, <<>>, <<a, b>>}, u \in SeqsUpTo({a, sp, eac, A}, 2) \cup {<<sp, a, b, sp, 91, 93>>, <<A, b, 91, 93, eac, a>>}}] : n \in {<<>>, <<Lower2>>}}
Pres2 == {<<>>, <<[k |-> "ws"]>>, <<[k |-> "bl", prefix |-> 1, trim |-> 1]>>}
SetUp(x) == <<AddOp(x.s, 1), AddOp(x.o, 0), [a |-> "norm", p |-> x.n]>>

Init ==
  IF Prop = "V01"
  THEN \E m \in Models1 : /\ av = NewVocab(m, 1) /\ prev = av /\ k = 0
                          /\ hist = [model |-> m, w |-> 1, todo |-> <<>>, steps |-> <<>>, obs |-> <<>>]
  ELSE \/ \E x \in Sets2 : \E t \in x.ts :
            /\ av = NewVocab(<<>>, 2) /\ prev = av /\ k = 0
            /\ hist = [model |-> <<>>, w |-> 2, todo |-> SetUp(x) \o <<[a |-> "ext", text |-> t]>>, steps |-> <<>>, obs |-> <<>>]
       \/ \E x \in Whole2 : \E t \in x.ts : \E p \in Pres2 : \E c \in {0, 1} :
            /\ av = NewVocab(<<>>, 2) /\ prev = av /\ k = 0
            /\ hist = [model |-> <<>>, w |-> 2, steps |-> <<>>, obs |-> <<>>,
                       todo |-> (IF c = 1 THEN SetUp(x) ELSE <<SetUp(x)[3], SetUp(x)[1], SetUp(x)[2]>>) \o <<[a |-> "pre", p |-> p], [a |-> "enc", text |-> t, chars |-> c]>>]
       \/ \E ids \in SeqsUpTo(-1..5, 3) : \E s \in {0, 1} :
            LET m == <<E(<<a>>, 0), E(<<b>>, 3)>> IN
            /\ av = NewVocab(m, 1) /\ prev = av /\ k = 0
            /\ hist = [model |-> m, w |-> 1, steps |-> <<>>, obs |-> <<>>,
                       todo |-> <<AddOp(<<Raw(<<b>>), Raw(<<91>>)>>, 1), AddOp(<<Plain(<<eac, sp>>), Plain(<<sp>>)>>, 0), AddOp(<<Plain(<<sp>>)>>, 1), [a |-> "dec", ids |-> ids, skip |-> s]>>]
Choices == IF Prop = "V01" THEN (IF k < Depth1 THEN Steps1(k) ELSE {}) ELSE IF k < Len(hist.todo) THEN {hist.todo[k + 1]} ELSE {}
Next == \E s \in Choices :
  LET r == AvStep(av, s) IN
  /\ av' = r.av /\ prev' = av /\ k' = k + 1
  /\ hist' = [hist EXCEPT !.steps = Append(@, s), !.obs = Append(@, [ret |-> r.ret])]
Spec == Init /\ [][Next]_vars
Emit == Choices = {} => PrintT("CASE" \o ToJson([op |-> "vocab", model |-> hist.model, w |-> hist.w, steps |-> hist.steps, exp |-> [obs |-> hist.obs]]))

--------------------------------------------------- \* property predicates
Last == hist.steps[k]
Ret == hist.obs[k].ret
PropV01 ==
  LET all == All(av) IN
  /\ \A i, j \in 1..Len(all) : i # j => all[i].id # all[j].id /\ all[i].t # all[j].t
  /\ \A i \in 1..Len(all) : IdOf(av, all[i].t) = <<all[i].id>> /\ TokenOf(av, all[i].id) = <<all[i].t>>
  /\ Take(av.added, Len(prev.added)) = prev.added /\ av.model = prev.model
  /\ \A i \in 1..Len(av.added) : av.added[i].id >= Len(av.model) /\ av.added[i].t # <<>>
  \* consecutive unless the model has the id
  /\ \A i \in 1..(Len(av.added) - 1) : \A d \in (av.added[i].id + 1)..(av.added[i + 1].id - 1) : \E j \in 1..Len(av.model) : av.model[j].id = d
  /\ k > 0 /\ Last.a = "add" => Ret = Cardinality({Last.toks[i].c : i \in 1..Len(Last.toks)} \ ({<<>>} \cup {All(prev)[i].t : i \in 1..Len(All(prev))}))
Contains(s, c) == \E i \in 0..Len(s) : Here(s, i, c)
Stripped(s) == SelectSeq(s, LAMBDA c : ~IsSpace(c))
Free(nz) == SelectSeq(Stage(av, nz), LAMBDA x : x.sw = 0)
PropV02 ==
  /\ k > 0 /\ Last.a = "ext" =>
     LET x == ExtractAndNormalize(av, Last.text).sp
         raw == Stage(av, 0) nrm == Stage(av, 1) IN
     /\ Flatten([i \in 1..Len(x) |-> x[i].n.orig]) = Last.text \/ av.norm # <<>>
     \* nothing that should be a token is left in the text between the tokens
     /\ \A i \in 1..Len(x) : x[i].tk = 0 => /\ \A j \in 1..Len(Free(0)) : ~Contains(x[i].n.orig, Free(0)[j].c)
                                            /\ \A j \in 1..Len(Free(1)) : ~Contains(Text(x[i].n), Free(1)[j].c)
     \* a token is its content and the white space around it
     /\ \A i \in 1..Len(x) : x[i].tk = 1 =>
          \E j \in 1..Len(raw \o nrm) : LET y == (raw \o nrm)[j] IN
             y.id = <<x[i].toks[1].id>> /\ Contains(x[i].toks[1].v, y.c) /\ Stripped(x[i].toks[1].v) = Stripped(y.c) /\ (y.ls = 0 /\ y.rs = 0 => x[i].toks[1].v = y.c)
  /\ k > 0 /\ Last.a = "dec" /\ Last.skip = 1 => \A i \in 1..Len(Kept(av, Last.ids, 1)) : ~IsSpecial(av, Kept(av, Last.ids, 1)[i])
Holds == IF Prop = "V01" THEN PropV01 ELSE PropV02
============================================================================
