---------------------------- MODULE WordModelsMC ----------------------------
(* WordPiece: every small vocabulary with every short word; WordLevel too.   *)
EXTENDS WordModels
VARIABLES m, w, k
vars == <<m, w, k>>
Prop == IOEnv.PROP
Big == IOEnv.TIER = "thorough"
a == 97  b == 98  eac == 233  hash == 35
U == <<91, 85, 93>>
Numbered(ts) == [i \in 1..Len(ts) |-> [t |-> ts[i], id |-> (3 * i) % 17]]
RECURSIVE AsList(_)
AsList(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : TRUE IN <<x>> \o AsList(S \ {x})
P == <<hash, hash>>
Pool == {<<a>>, <<a, b>>, <<b, a, b>>, P \o <<a>>, P \o <<b>>, P \o <<a, b>>, P \o <<b, b, a>>, <<a, a>>, P}
Pool2 == {<<a>>, <<eac>>, <<eac, a>>, P \o <<eac>>, P \o <<a, eac>>, P \o <<a>>, <<a, eac, eac>>}
WpModels ==
  {[vocab |-> Numbered(AsList(S)), unk |-> U, pre |-> P, max |-> n] : S \in {{U} \cup X : X \in SUBSET Pool}, n \in {100}}
  \cup {[vocab |-> Numbered(AsList(S)), unk |-> U, pre |-> p, max |-> n] : S \in {X \cup Y : X \in SUBSET {<<a>>, <<a, b>>, <<b>>, <<hash, a>>}, Y \in {{}, {U}}}, p \in {<<>>, <<hash>>, <<a>>}, n \in {0, 2, 3}}
  \cup {[vocab |-> Numbered(AsList({U} \cup S)), unk |-> U, pre |-> P, max |-> 3] : S \in SUBSET Pool2}
WpWords(x) == IF x.max = 100 THEN SeqsUpTo({a, b}, IF Big THEN 6 ELSE 4) \cup {U, P \o <<a>>} ELSE IF x.pre = P THEN SeqsUpTo({a, eac}, 4) ELSE SeqsUpTo({a, b}, 4) \cup {<<hash, a>>, <<a, hash, a>>, <<a, -200>>}
WlModels == {[vocab |-> Numbered(AsList(S)), unk |-> u, pre |-> <<>>, max |-> 0] : S \in SUBSET {<<>>, <<a>>, <<eac, a>>, U, <<60, 117, 110, 107, 62>>}, u \in {U, <<60, 117, 110, 107, 62>>, <<a>>}}
\* one case per model: all the words, one after the other, then all look-ups
Queries == AsList({<<>>, <<a>>, <<a, b>>, <<b>>, U, P \o <<a>>, <<eac>>, <<eac, a>>})
Init == /\ k = 0
        /\ \E x \in IF Prop = "M01" THEN WpModels ELSE WlModels : \E add \in IF Prop = "M01" THEN {0} ELSE {0, 1} :
             /\ m = [kind |-> IF Prop = "M01" THEN "wp" ELSE "wl", m |-> x, addunk |-> add]
             /\ w = (IF Prop = "M01" THEN AsList(WpWords(x)) ELSE AsList(SeqsUpTo({a, eac}, 2) \cup {U}))
Model == Made(m)
Next == k < Len(w) /\ k' = k + 1 /\ UNCHANGED <<m, w>>
Spec == Init /\ [][Next]_vars
Steps == [i \in 1..Len(w) |-> [a |-> "tok", w |-> w[i]]] \o << [a |-> "look", toks |-> Queries, ids |-> [i \in 1..19 |-> i - 2]] >>
Emit == k = Len(w) => LET d == TLCEval(Model) IN
  PrintT("CASE" \o ToJson([op |-> "word", kind |-> m.kind, m |-> m.m, addunk |-> m.addunk, steps |-> Steps, exp |-> [obs |-> [i \in 1..Len(Steps) |-> [ret |-> RetOf(m, d, Steps[i])]]]]))
\* --------------------------------------------------------- the properties
W == w[k]
Covers(ts, s) == IF ts = <<>> THEN s = <<>> ELSE /\ ts[1].o[1] = 0 /\ ts[Len(ts)].o[2] = Bytes(s)
                                                 /\ \A i \in 1..(Len(ts) - 1) : ts[i].o[2] = ts[i + 1].o[1]
Cores(ts) == [i \in 1..Len(ts) |-> IF i = 1 THEN ts[i].v ELSE Drop(ts[i].v, Len(Model.pre))]
HoldsWp ==
  LET d == Model  r == WordPiece(d, W)
      unk == r.toks # <<>> /\ Len(r.toks) = 1 /\ r.toks[1].v = d.unk
      \* all ways to cut the word into pieces of the vocabulary
      cutting == IF Len(W) = 0 THEN {} ELSE {S \in SUBSET (1..(Len(W) - 1)) :
          \A i \in {0} \cup S : Has(d.vocab, PieceAt(d, W, i, MinOf({j \in S \cup {Len(W)} : j > i})))}
      ends(ts) == {CHOOSE i \in 0..Len(W) : PosOf(W, i) = ts[j].o[2] : j \in 1..(Len(ts) - 1)}
  IN /\ ((r.err = 1) <=> (~Has(d.vocab, d.unk) /\ (Len(W) > d.max \/ Greedy(d, W, 0) = <<>>)))
     /\ r.err = 0 => Covers(r.toks, W)
     /\ r.err = 0 /\ W # <<>> /\ W # d.unk => (unk \/ (ends(r.toks) \in cutting /\ Flatten(Cores(r.toks)) = W))
     /\ \A i \in 1..Len(r.toks) : r.toks[i].id = IdIn(d.vocab, r.toks[i].v)
     \* of all cuttings that agree up to a piece, none has a longer piece there
     /\ (r.err = 0 /\ ~unk) => \A i \in {0} \cup ends(r.toks) : LET e == MinOf({j \in ends(r.toks) \cup {Len(W)} : (j > i \/ j = Len(W))}) IN \A j \in (e + 1)..Len(W) : ~Has(d.vocab, PieceAt(d, W, i, j))
HoldsWl ==
  LET d == Model IN
  /\ LET r == WordLevel(d, W) IN r.err = 0 => Len(r.toks) = 1 /\ r.toks[1].o = <<0, Bytes(W)>> /\ Texts(d, <<r.toks[1].id>>) = << << IF Has(d.vocab, W) THEN W ELSE d.unk >> >>
  /\ \A i, j \in 1..Len(d.vocab) : i # j => d.vocab[i].t # d.vocab[j].t /\ d.vocab[i].id # d.vocab[j].id
  /\ m.addunk = 1 => Has(d.vocab, d.unk) /\ IsPrefixOf(m.m.vocab, d.vocab)
Holds == k > 0 => IF Prop = "M01" THEN HoldsWp ELSE HoldsWl
=============================================================================
